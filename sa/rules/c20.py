"""C20 pre-processing keeps all text except single spaces between words"""
from ctx import *
import engine as E

RULE = ("the text-processing loop's summary is a transducer over character classes (letter, space, other); its reachable abstract "
        "states are explored together with the reference transducer of the property, and in every state, for every class and at the "
        "end of the text, the code must have a path for every case and emit what the reference emits: a finished word (plain or "
        "marked and lower-cased) with the end marker, the character itself, or nothing for a single space between words")

FN = "process"
SIG = "fn(&str) -> std::string::String"
LETTER, SPACE, OTHER = "letter", "space", "other"
O, W, WEND = sym("O"), sym("W"), S("\x16")
ANY = "?"


def parts(t):
    """a string value as a list of pieces, constants split into characters"""
    if t.op == "cat":
        return [y for x in t.a for y in parts(x)]
    c = const_text(t)
    if c is not None:
        return [S(x) for x in c]
    if t.op == "app" and t.a[0] == "char" and t.a[1].op == "int":
        return [S(chr(t.a[1].a[0]))]
    if t.op == "push":
        return parts(t.a[0]) + [raw("byte", t.a[1])]
    return [t]


def const_text(t):
    if t.op == "bytes":
        try:
            return t.a[0].decode()
        except UnicodeDecodeError:
            return None
    return "" if t is EMPTY else None


class Group:
    """a word written out: marker (or None), the pieces after it, the path's facts"""
    def __init__(self, marker, body, facts, fn, where):
        self.marker, self.body, self.facts, self.fn, self.where = marker, body, facts, fn, where


def word_group(ps, w):
    """the pieces ps start with a spelling of the word w and the end marker -> (marker, body, rest) or None"""
    wp = parts(w)
    if ps[:len(wp)] == wp and ps[len(wp):len(wp) + 1] == [WEND]:
        return None, wp, ps[len(wp) + 1:]
    if ps and ps[0] in (S("\x14"), S("\x15")):
        for n in range(1, len(ps)):
            if ps[n] is WEND:
                body = ps[1:n]
                if body and all(only_about(x, w) for x in body):
                    return ps[0].a[0], body, ps[n + 1:]
                return None
    for n in range(1, len(ps)):
        if ps[n] is WEND:
            if all(only_about(x, w) for x in ps[:n]):
                return None, ps[:n], ps[n + 1:]
            return None
    return None


def itself(body):
    """the word as it is: whole, or its first letter and the rest"""
    if body == parts(W):
        return True
    chars = app("chars", W)
    first = idx(chars, ZERO)
    if len(body) != 2 or body[0] is not app("char", first):
        return False
    x = body[1]
    if x.op == "it":
        return x.a[0] == "seq" and x.a[1] is chars and x.a[2] is ONE and x.a[3] is length(chars)
    if x.op == "slice":
        return x.a[0] is W and (x.a[2] is None or x.a[2] is length(W)) and x.a[1] in (app("char.len_utf8", first), length(app("char", first)))
    return False


def only_about(x, w):
    syms = {y for y in walk(x) if y.op in ("sym", "phi", "iota")}
    return w in syms and syms <= {w}


def expr(v, pieces, w_old, w_new, groups, facts, fn, where):
    """the code's value in terms of what the reference has emitted (O, after `pieces` the new O) and its current word"""
    ps = parts(v)
    if ps and ps[0] is O:
        rest = ps[1:]
        for q in pieces:
            if q == "WORD":
                g = word_group(rest, w_old)
                if g is None:
                    return None
                groups.append(Group(g[0], g[1], facts, fn, where))
                rest = g[2]
            else:
                if not rest or rest[0] is not q:
                    return None
                rest = rest[1:]
        if all(const_text(x) is not None for x in rest):
            return cat(O, *rest) if rest else O
        return None
    if w_new is not None and ps == parts(w_new):
        return W
    if not contains(v, lambda x: x.op in ("sym", "phi", "iota", "arg") or x in (O, W)):
        return v
    return None


SPEC = {
    # state, class -> next state, pieces, keeps the word
    ("N", LETTER): ("W", []),
    ("N", SPACE): ("N", ["CH"]),
    ("N", OTHER): ("N", ["CH"]),
    ("W", LETTER): ("W", []),
    ("W", SPACE): ("S", ["WORD"]),
    ("W", OTHER): ("N", ["WORD", "CH"]),
    ("S", LETTER): ("W", []),
    ("S", SPACE): ("N", ["SP", "CH"]),
    ("S", OTHER): ("N", ["SP", "CH"]),
    ("N", None): ([],),
    ("W", None): (["WORD"],),
    ("S", None): (["SP"],),
}


def class_facts(cls, ch):
    a = app("char.is_alphabetic", ch)
    sp = eq_int(ch, I(32))
    return {lit(a)[0]: cls == LETTER, lit(sp)[0]: (cls == SPACE) == lit(sp)[1]}


def decide(lits, m, known, wstate):
    """literals under the substitution -> residual literals (undecided) or None if some is false"""
    out = set()
    for a, p in lits:
        b = subst(a, m)
        if b.op == "bool":
            if b.a[0] != p:
                return None
            continue
        c, q = lit(b)
        p2 = p if q else not p
        if c.op == "bool":
            if c.a[0] != p2:
                return None
            continue
        if c in known:
            if known[c] != p2:
                return None
            continue
        if wstate:
            k = nonempty_word(c)
            if k is not None:
                if k != p2:
                    return None
                continue
        out.add((c, p2))
    r = norm_lits(frozenset(out))
    if r is None:
        return None
    return E.drop_witness(r)


def nonempty_word(c):
    """truth of a comparison that follows from the word having at least one character"""
    st = State()
    if c.op in ("pos", "eq0"):
        ls = [x for x in walk(c) if x.op == "len" and contains(x, lambda y: y is W)]
        for x in ls:
            inner = x.a[0]
            if inner is W or (inner.op == "app" and inner.a[0] == "chars" and inner.a[1] is W):
                st.learn(pos(x), True)
        if not ls:
            return None
        lo, hi = st.bounds(c.a[0])[:2]
        if c.op == "pos":
            if lo is not None and lo >= 1:
                return True
            if hi is not None and hi <= 0:
                return False
        else:
            if lo is not None and lo >= 1 or hi is not None and hi <= -1:
                return False
    return None


def explore(ctx, rule=True):
    """runs the product exploration; -> (groups, passthrough [(facts, where)])"""
    if hasattr(ctx, "_transducer"):
        return ctx._transducer
    groups, through = [], []
    ctx._transducer = (groups, through)
    fn = ctx.role(FN, SIG)
    ps, _ = ctx.run(fn)
    w = ctx.where_fn(fn)
    ob = (lambda *a: ctx.ob(*a)) if rule else (lambda *a: a[2])
    if not ps:
        return groups, through
    txt = sym("arg", 0)
    chars = app("chars", txt)
    L = None
    for p in ps:
        for e in p.events:
            if isinstance(e, tuple) and list(e[1].trips) == [length(chars)]:
                L = e[1]
    if not ob("transducer", "loop", L is not None, w, "no pass over all characters of the text", fn):
        return groups, through
    ch = idx(chars, L.iota)
    one = app("char", ch)
    keys = sorted(L.leaves, key=str)
    phi = {k: L.leaves[k]["phi"] for k in keys}
    outk = [k for k in keys if all(parts(p.val)[:1] == [L.final.get(phi[k])] for p in ps) and const_text(L.leaves[k]["init"]) == ""]
    if not ob("transducer", "output", len(outk) == 1, w, "the result does not start with one text collected by the loop, from empty", fn):
        return groups, through
    start = ("N", tuple(O if k == outk[0] else L.leaves[k]["init"] for k in keys))
    todo, seen = [start], {start}
    steps = 0
    while todo and steps < 200:
        q, vals = todo.pop()
        steps += 1
        m0 = {}
        for k, v in zip(keys, vals):
            m0[phi[k]] = sym("any", str(k)) if v is ANY else v
        for cls in (LETTER, SPACE, OTHER):
            m = dict(m0)
            chv = ch
            if cls == SPACE:
                m[ch] = I(32)
                chv = I(32)
            known = class_facts(cls, chv) if cls != SPACE else {}
            if cls == SPACE:
                known = {app("char.is_alphabetic", I(32)): False}
            nq, pieces = SPEC[(q, cls)]
            chp = S(" ") if cls == SPACE else one
            pcs = ["WORD" if x == "WORD" else S(" ") if x == "SP" else chp for x in pieces]
            if nq == "W":
                wnew = cat(W, chp) if q == "W" else chp
            else:
                wnew = None
            residual = []
            for p in L.paths:
                if p.kind == "done":
                    continue
                r = decide(set(p.conds), m, known, q == "W")
                if r is None:
                    continue
                ra = decide(set(p.asserts), m, known, q == "W")
                if ra is None:
                    continue
                residual.append(frozenset(r))
                name = "%s then %s" % ({"N": "outside words", "W": "inside a word", "S": "after a word and a space"}[q], cls)
                if not ob("transducer", name, p.kind == "cont", w, "the rest of the text is skipped after a %s" % cls, fn):
                    continue
                nv = []
                good = False
                shown = []
                for k in keys:
                    v = subst(p.upd.get(k, phi[k]), m)
                    g = []
                    x = expr(v, pcs, W, wnew, g, r, fn, w)
                    groups.extend(g)
                    if x is None:
                        shown.append(show(v)[:200])
                        nv.append(ANY)
                    else:
                        good |= x is O or x.op == "cat" and x.a[0] is O
                        nv.append(x)
                ob("transducer", name, good, w, "%s: no value is the text emitted so far followed by %s (instead %s)" % (
                    name, " + ".join(x if isinstance(x, str) else show(x) for x in pcs) or "nothing", "; ".join(shown)), fn)
                if q == "N" and cls == OTHER:
                    through.append((frozenset(r), ch, w, fn))
                if good:
                    s2 = (nq, tuple(nv))
                    if s2 not in seen:
                        seen.add(s2)
                        todo.append(s2)
            ob("transducer", "complete", covered(residual), w,
               "in state %s not every %s is handled (the code panics or the analysis has no path for it)" % (q, cls), fn)
        # end of the text
        m = {}
        for k, v in zip(keys, vals):
            x = L.final.get(phi[k])
            if x is not None:
                m[x] = m0[phi[k]]
        (pieces,) = SPEC[(q, None)]
        pcs = ["WORD" if x == "WORD" else S(" ") for x in pieces]
        residual = []
        for p in ps:
            r = decide(set(p.conds), m, {}, q == "W")
            ra = decide(set(p.asserts), m, {}, q == "W")
            if r is None or ra is None:
                continue
            residual.append(frozenset(r))
            v = subst(p.val, m)
            x = expr(v, pcs, W, None, groups, r, fn, w)
            name = "end %s" % {"N": "outside words", "W": "inside a word", "S": "after a word and a space"}[q]
            ob("transducer", name, x is O, w, "%s: the result is %s instead of the text emitted so far followed by %s" % (
                name, show(v)[:200], " + ".join(x if isinstance(x, str) else show(x) for x in pcs) or "nothing"), fn)
        ob("transducer", "complete", covered(residual), w, "in state %s the end of the text is not always handled" % q, fn)
    for g in groups:
        if g.marker is None:
            ob("transducer", "plain word", itself(g.body), g.where, "a word without a marker is written as %s" % " + ".join(show(x) for x in g.body)[:200], g.fn)
    ob("transducer", "explored", not todo, w, "too many abstract states", fn)
    ctx.notes.append("%d abstract states, %d word emissions" % (len(seen), len(groups)))
    if rule:
        ctx.floor("abstract states of the transducer", len(seen), 3)
    return groups, through


def covered(residual):
    return exhaustive([set(r) for r in residual]) if residual else False


def check(ctx):
    explore(ctx)
