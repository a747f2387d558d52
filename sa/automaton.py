"""Scans of a byte string as finite automata.

A loop over all bytes of a string whose accumulators are flags, bytes and counters compared
with constants is a finite automaton (counters saturate above the constants they are compared
with).  `agree` decides, by exploring the product of the automata that occur in the path
conditions of a function with a reference automaton, whether the function answers as the
reference does for every string."""
from terms import *


class NotFinite(Exception):
    pass


def folds_in(ts):
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == "fold" and x not in out:
                out.append(x)
    return out


def consts_in(ts):
    return {x.a[0] for t in ts for x in walk(t) if isint(x)}


def walk_any(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, T):
            yield from walk(y)
        elif isinstance(y, (tuple, frozenset, set, list)):
            st.extend(y)


def agree(paths, t, start, step, want):
    """paths: [(literals, value)] of a predicate of the byte string t.  start / step(q, byte) / want(q):
    the reference.  True, or a counterexample (list of bytes); NotFinite when this is not decidable here."""
    terms = [a for ls, v in paths for a, _ in ls] + [v for _, v in paths]
    F = folds_in(terms)
    if not F:
        raise NotFinite("no scan")
    for f in F:
        if len(f.a) < 5 or f.a[1] != (length(t),):
            raise NotFinite("not a scan of the whole string")
        if any(x.op in ("exists", "exits", "out", "brk", "fold") for y in f.a[3:] for x in walk_any(y)):
            raise NotFinite("nested scan")
        if not all(isint(x) or x in (TRUE, FALSE) for x in f.a[2]):
            raise NotFinite("initial value")
    cs = {x.a[0] for y in terms for x in walk(y) if isint(x)}
    cs |= {abs(c) for c in cs}
    small = [c for c in cs if 0 <= c < 256]
    alphabet = sorted({c + d for c in small + [0, 10, 255] for d in (-2, -1, 0, 1, 2) if 0 <= c + d < 256})
    cap = max([c for c in cs if c < 4096] + [0]) + 260
    for f in F:
        atoms = [a for cond, up in f.a[3] for a, _ in cond] + [a for a, _ in f.a[4]]
        for a in atoms:
            if len({x for x in walk(a) if x.op == "phi"}) > 1 and not all(x in (TRUE, FALSE) for x in f.a[2]):
                raise NotFinite("accumulators compared with each other")

    def const(x):
        if isint(x) or x in (TRUE, FALSE):
            return x
        raise NotFinite("not constant: %s" % show(x)[:80])

    def one(f, q, b):
        """next state of one scan; states: tuple of values, ('exit', values, byte)"""
        if q and q[0] == "exit":
            return q
        bv = raw("bv", f.a[0])
        sm = {raw("phi", f.a[0], i): v for i, v in enumerate(q)}
        sm[idx(t, bv)] = I(b)
        memo = {}

        def holds(ls):
            for a, p in ls:
                v = const(subst(a, sm, memo))
                if (v is TRUE) != p:
                    return False
            return True
        if f.a[4] and holds(f.a[4]):
            return ("exit",) + q
        for cond, up in f.a[3]:
            if holds(cond):
                out = []
                for u in up:
                    v = const(subst(u, sm, memo))
                    if isint(v) and abs(v.a[0]) > cap:
                        v = I(cap if v.a[0] > 0 else -cap)
                    out.append(v)
                return tuple(out)
        # another way of leaving the loop
        return ("exit", "other") + q

    def value(S, n):
        sm = {}
        for f, q in zip(F, S):
            left = q and q[0] == "exit"
            here = left and not (len(q) > 1 and q[1] == "other")
            sm[raw("exits", f)] = TRUE if here else FALSE
            if not left:
                for i, v in enumerate(q):
                    sm[raw("out", f, i)] = v
            elif here:
                for i, v in enumerate(q[1:]):
                    sm[raw("brk", f, i)] = v
        sm[length(t)] = I(n)
        memo = {}
        res = set()
        for ls, v in paths:
            ok = True
            for a, p in ls:
                x = subst(a, sm, memo)
                if any(y.op == "brk" for y in walk(x)) and x not in (TRUE, FALSE):
                    # what is known about the byte it stopped at: implied by having stopped there
                    if any(z.op == "brk" and z.a[1] == "pos" for z in walk(x)):
                        continue
                y = const(x)
                if (y is TRUE) != p:
                    ok = False
                    break
            if ok:
                res.add(const(subst(v, sm, memo)))
        if len(res) != 1:
            raise NotFinite("not one answer")
        return res.pop()

    N = 3 + max([abs(c) for y in terms if not any(x.op == "fold" for x in walk(y)) and any(x is length(t) for x in walk(y)) for c in consts_in([y])] + [0])
    s0 = (tuple(tuple(f.a[2]) for f in F), 0, start)
    seen = {s0: None}
    todo = [s0]
    while todo:
        s = todo.pop(0)
        S, n, q = s
        v = value(S, n)
        if (v is TRUE) != want(q):
            w = []
            while seen[s] is not None:
                s, b = seen[s]
                w.append(b)
            return w[::-1]
        for b in alphabet:
            nx = (tuple(one(f, x, b) for f, x in zip(F, S)), min(n + 1, N), step(q, b))
            if nx not in seen:
                seen[nx] = (s, b)
                todo.append(nx)
                if len(seen) > 20000:
                    raise NotFinite("too many states")
    return True
