"""Linear inequalities between integer terms: a small polyhedral domain with entailment by variable elimination."""
from terms import *


def form(t):
    """term -> (const, {atom: coefficient})"""
    c, d = lin_parts(t)
    return c, dict(d)


def ineqs_of(lits):
    """facts as forms that are >= 0, and the disequalities x != 0"""
    out, ne = [], []
    for a, p in lits:
        if a.op == "pos":
            c, d = form(a.a[0])
            if p:
                out.append((c - 1, d))
            else:
                out.append((-c, {k: -v for k, v in d.items()}))
        elif a.op == "eq0":
            c, d = form(a.a[0])
            if p:
                out.append((c, d))
                out.append((-c, {k: -v for k, v in d.items()}))
            else:
                ne.append((c, d))
        elif a.op == "eq" and p and all(isint(x) or x.op in ("lin", "len") for x in a.a):
            c, d = form(sub(a.a[0], a.a[1]))
            out.append((c, d))
            out.append((-c, {k: -v for k, v in d.items()}))
    return out, ne


def atoms_of(forms):
    s = set()
    for _, d in forms:
        s |= set(d)
    return s


def intrinsic(t, nonneg):
    """what is known of an atom by itself: (inequalities, splits); a split is a list of alternatives (lists of inequalities)"""
    le = lambda x, y: (lambda f: (f[0], f[1]))(form(sub(y, x)))      # x <= y
    out, splits = [], []
    if t.op == "len" or nonneg(t) or is_nonneg(t):
        out.append((0, {t: 1}))
    if t.op == "brk" and t.a[1] == "pos":
        out.append((0, {t: 1}))
        for n in t.a[0].a[1]:
            out.append(le(t, sub(n, ONE)))
    if t.op in ("min", "max") or t.op == "app" and t.a[0] in ("min", "max"):
        mx = t.op == "max" or t.op == "app" and t.a[0] == "max"
        xs = [x for x in t.a if isinstance(x, T)]
        for x in xs:
            out.append(le(x, t) if mx else le(t, x))
        splits.append([[le(t, x)] if mx else [le(x, t)] for x in xs])
    if t.op == "payload" and t.a[0].op == "ev" and t.a[0].a[0] == "io::read":
        out.append((0, {t: 1}))
        out.append(le(t, t.a[0].a[1][1]))
    if t.op in ("div",) and isint(t.a[1]) and t.a[1].a[0] > 0:
        # k*t <= x <= k*t + k-1
        k = t.a[1].a[0]
        out.append(le(scale(t, k), t.a[0]))
        out.append(le(t.a[0], add(scale(t, k), I(k - 1))))
    if t.op == "rem" and isint(t.a[1]):
        out.append((0, {t: 1}))
        out.append(le(t, I(t.a[1].a[0] - 1)))
    return out, splits


def infeasible(forms, limit=4000):
    """is the system of forms >= 0 without a (rational) solution"""
    fs = []
    for c, d in forms:
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c < 0:
                return True
            continue
        fs.append((c, d))
    while fs:
        vs = atoms_of(fs)
        # cheapest variable first
        best = None
        for v in vs:
            p = sum(1 for _, d in fs if d.get(v, 0) > 0)
            n = sum(1 for _, d in fs if d.get(v, 0) < 0)
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, v)
        v = best[1]
        pos_ = [f for f in fs if f[1].get(v, 0) > 0]
        neg_ = [f for f in fs if f[1].get(v, 0) < 0]
        rest = [f for f in fs if not f[1].get(v, 0)]
        new = {}
        for cp, dp in pos_:
            for cn, dn in neg_:
                a, b = dp[v], -dn[v]
                d = {}
                for k, x in dp.items():
                    d[k] = d.get(k, 0) + x * b
                for k, x in dn.items():
                    d[k] = d.get(k, 0) + x * a
                d = {k: x for k, x in d.items() if x}
                c = cp * b + cn * a
                if not d:
                    if c < 0:
                        return True
                    continue
                # normalise
                from math import gcd
                g = 0
                for x in d.values():
                    g = gcd(g, abs(x))
                d = {k: x // g for k, x in d.items()}
                c = c // g          # integer tightening
                key = frozenset((k.id, x) for k, x in d.items())
                if key not in new or new[key][0] > c:
                    new[key] = (c, d)
        fs = rest + list(new.values())
        if len(fs) > limit:
            return False
    return False


def entails(lits, goal, nonneg=lambda t: False, extra=(), depth=3):
    """do the facts imply goal >= 0"""
    fs, ne = ineqs_of(lits)
    for g in extra:
        fs.append(form(g))
    c, d = form(goal)
    neg = (-c - 1, {k: -v for k, v in d.items()})
    return _ent(fs + [neg], ne, nonneg, depth)


def _ent(fs, ne, nonneg, depth):
    known = set()
    splits = []
    while True:
        new = atoms_of(fs) - known
        if not new:
            break
        for t in new:
            o, s = intrinsic(t, nonneg)
            fs = fs + o
            splits += s
        known |= new
    if infeasible(fs):
        return True
    if depth <= 0:
        return False
    for alts in splits:
        if all(_ent2(fs + a, ne, nonneg, depth - 1) for a in alts):
            return True
    for c, d in ne:
        if not set(d) & known:
            continue
        lo = (c - 1, dict(d))
        hi = (-c - 1, {k: -v for k, v in d.items()})
        if all(_ent2(fs + [a], [x for x in ne if x != (c, d)], nonneg, depth - 1) for a in (lo, hi)):
            return True
    return False


def _ent2(fs, ne, nonneg, depth):
    return infeasible(fs) or _ent(fs, ne, nonneg, depth)
