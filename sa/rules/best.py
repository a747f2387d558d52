"""Which element of a collection a function chooses: the best under a key among those that meet conditions.

Works on values of summaries: the first (last) element of a sorted sequence that meets a condition, the element
with the least (greatest) key, and scans that keep the best so far.  The answer is in terms of a generic element."""
from terms import *

J, K = raw("sym", "each"), raw("sym", "other")      # two generic positions


def ls(a, p, m):
    """a literal after a substitution"""
    b = subst(a, m)
    return lit(b if p else neg(b))


def real(cs):
    """without literals that became true"""
    return [c for c in cs if isinstance(c, tuple) and not (c[0] is TRUE and c[1])]


def elements(L):
    """a sequence as (trips, conds, element over J), order ignored; None when it is not one comprehension"""
    L = unsort(L)
    if L.op == "build":
        if L.a[1] is not EMPTY or len(L.a[2]) != 1 or len(L.a[3]) != 1:
            return None
        conds, els = L.a[3][0]
        if len(els) != 1:
            return None
        bv = raw("bv", L.a[0])
        cs = [ls(a, p, {bv: J}) for a, p in conds]
        e = subst(els[0], {bv: J})
        return over(L.a[2][0], cs, e)
    return [length(L)], [], idx(L, J)


def over(trip, cs, e):
    """when the positions are those of another comprehension, in terms of its positions"""
    for x in sorted({y for t in [e] + [a for a, _ in cs] for y in walk(t) if y.op == "idx" and y.a[1] is J}, key=lambda y: -y.id):
        L = x.a[0]
        if length(L) is not trip:
            continue
        B = unsort(L)
        if B.op != "build" and B is L:
            continue
        inner = elements(L)
        if inner is None:
            return None
        tr, ics, ie = inner
        m = {x: ie}
        ncs = [ls(a, p, m) for a, p in cs]
        ne = subst(e, m)
        return over(tr[0], list(ics) + ncs, ne) if len(tr) == 1 and tr[0] is not trip else (tr, list(ics) + ncs, ne)
    return [trip], list(cs), e


def unsort(L):
    while L.op == "app" and L.a[0] in ("sorted", "sorted_by", "reversed"):
        L = L.a[1]
    return L


def ordering(L):
    """(least first?, key over an element, comparator or None) of the outermost sort"""
    up = True
    while L.op == "app" and L.a[0] == "reversed":
        up = not up
        L = L.a[1]
    if L.op != "app":
        return None
    if L.a[0] == "sorted":
        return up, lambda e, o: (e, o)
    if L.a[0] == "sorted_by":
        return up, keyed(L.a[2])
    return None


def keyed(lam):
    """comparison of two elements as a pair of terms compared in ascending order"""
    if lam.op != "lam":
        return lambda e, o: None
    n, h, cases = lam.a
    if len(cases) != 1:
        return lambda e, o: None
    (conds, body), = list(cases)
    if conds:
        return lambda e, o: None
    v = [raw("bv", h, i) for i in range(n)]
    if n == 1:
        return lambda e, o: (subst(body, {v[0]: e}), subst(body, {v[0]: o}))

    def two(e, o):
        b = subst(body, {v[0]: e, v[1]: o})
        while b.op == "app" and b.a[0] == "cmpthen":
            b = b.a[1]
        if b.op == "app" and b.a[0] == "cmp":
            return b.a[1], b.a[2]
        return None
    return two


def first_part(x):
    """what a lexicographic comparison looks at first: (term, reversed?)"""
    rev = False
    while x.op == "agg" and len(x.a) > 3:
        if str(x.a[0]).endswith("Reverse"):
            rev = not rev
        elif str(x.a[0]) not in ("()", "", "tuple"):
            return x, rev
        x = x.a[3]
    return x, rev


def descends(pair, count, other):
    """given the two terms compared (for element and other): does ascending order put greater counts first"""
    if pair is None:
        return None
    a, ra = first_part(pair[0])
    b, rb = first_part(pair[1])
    if ra != rb:
        return None
    if a is count and b is other:
        return ra
    if a is other and b is count:
        return not ra
    if a is scale(count, -1) and b is scale(other, -1):
        return not ra
    if a is scale(other, -1) and b is scale(count, -1):
        return ra
    return None


def choices_in(t):
    """choice terms in t: the largest subterms that pick an element of a collection"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_choice(x):
            out.append(x)
            continue
        st += [y for y in kids(x)]
    return out


def kids(x):
    st = list(x.a)
    while st:
        y = st.pop()
        if isinstance(y, T):
            yield y
        elif isinstance(y, (tuple, frozenset, list)):
            st.extend(y)


def is_choice(x):
    if x.op == "idx" and unsort(x.a[0]) is not x.a[0]:
        return True
    if x.op == "payload" and x.a[0].op == "app" and x.a[0].a[0] in ("min_by_key", "max_by_key", "min_by", "max_by", "min", "max"):
        return True
    if x.op == "out" and x.a[0].op == "fold":
        return True
    if x.op == "payload" and x.a[0].op == "out" and x.a[0].a[0].op == "fold":
        return True
    return False


def position(i, L):
    """which element of the sequence an index names: ('first'|'last', conditions it is the first to meet)"""
    if i is ZERO:
        return "first", None
    if i is sub(length(L), ONE):
        return "last", None
    for y in walk(i):
        if y.op == "brk" and y.a[1] == "pos":
            F = y.a[0]
            if list(F.a[1]) != [length(L)]:
                return None
            if i is y:
                return "first", F
            if i is sub(sub(length(L), ONE), y):
                return "last", F
    return None


def choose(z, count_of):
    """the choice a term makes.  count_of(elem): the quantity of a generic element, or None.
    (trips, conds over J, elem over J, 'most' | 'least' | None)"""
    if z.op == "idx":
        L = z.a[0]
        at = position(z.a[1], L)
        o = ordering(L)
        e = elements(L)
        if at is None or o is None or e is None:
            return None
        trips, cs, elem = e
        if at[1] is not None:
            F = at[1]
            more = scan_stop(F, L)
            if more is None:
                return None
            m = {idx(L, J): elem}
            cs = list(cs) + [ls(a, p, m) for a, p in more]
        up, cmp_ = o
        if at[0] == "last":
            up = not up
        return trips, cs, elem, rank(cmp_, elem, up, count_of)
    if z.op == "payload" and z.a[0].op == "app":
        m, L, lam = z.a[0].a[0], z.a[0].a[1], z.a[0].a[2]
        e = elements(L)
        if e is None:
            return None
        trips, cs, elem = e
        cmp_ = keyed(lam) if lam.op == "lam" else (lambda a, b: (a, b))
        return trips, cs, elem, rank(cmp_, elem, m.startswith("min"), count_of)
    return None


def rank(cmp_, elem, up, count_of):
    c = count_of(elem)
    if c is None:
        return None
    other = subst(elem, {J: K})
    d = descends(cmp_(elem, other), c, subst(c, {J: K}))
    if d is None:
        return None
    return "most" if d == up else "least"


def scan_stop(F, L):
    """conditions (over J) under which a scan of L without memory stops"""
    if F.op != "fold" or F.a[2] not in ((), []) or not all(not u for _, u in F.a[3]):
        return None
    bv = raw("bv", F.a[0])
    if any(c for c, _ in F.a[3]):
        return None
    return [ls(a, p, {bv: J}) for a, p in F.a[4]]


def scan(F, leaf, count_of_update):
    """a scan that keeps the best so far in accumulator `leaf`.
    count_of_update(value over J) -> the quantity of the candidate, or None
    (trips, conds over J, value kept over J, strictly more than before?) or None"""
    if F.op != "fold" or len(F.a[1]) != 1:
        return None
    h = F.a[0]
    bv = raw("bv", h)
    phis = [raw("phi", h, i) for i in range(len(F.a[2]))]
    init = F.a[2]
    ups, keep = [], []
    for conds, vals in F.a[3]:
        if all(v is ph for v, ph in zip(vals, phis)):
            keep.append(conds)
        else:
            ups.append((conds, vals))
    if not ups or F.a[4]:
        return None
    if len({u for _, u in ups}) != 1:
        return None
    upd = tuple(subst(v, {bv: J}) for v in ups[0][1])
    if any(x.op == "phi" and x.a[0] == h for v in upd for x in walk(v)):
        return None
    val = upd[leaf]
    count = count_of_update(val)
    if count is None:
        return None
    other = subst(count, {J: K})
    prev = {ph: subst(v, {J: K}) for ph, v in zip(phis, upd)}
    options = [ph for ph, v in zip(phis, init) if v is NONE]
    # accumulators that start as numbers: 0 stands for 'nothing yet'
    zero = [ph for ph, v in zip(phis, init) if v is ZERO]

    def classify(a, p):
        """'none' | 'some' | ('more', strict) | ('notmore', strict) | 'zero' | ('cond', literal)"""
        a, p = ls(a, p, {bv: J})
        if not any(x.op == "phi" and x.a[0] == h for x in walk(a)):
            return ("cond", (a, p))
        for ph in options:
            if (a, p) == lit(is_variant(ph, "Some")):
                return "some"
            if (a, p) == lit(neg(is_variant(ph, "Some"))):
                return "none"
        for ph, v in zip(phis, init):
            if v is ZERO and ph in zero and ((a, p) == lit(pos(ph)) or (a, p) == lit(neg(eq_int(ph, ZERO)))):
                return "some"
            if v is ZERO and ph in zero and ((a, p) == lit(neg(pos(ph))) or (a, p) == lit(eq_int(ph, ZERO))):
                return "none"
            if v is EMPTY and (a, p) in (lit(pos(length(ph))), lit(neg(eq_int(length(ph), ZERO)))):
                return "some"
            if v is EMPTY and (a, p) in (lit(neg(pos(length(ph)))), lit(eq_int(length(ph), ZERO))):
                return "none"
        l = ls(a, p, prev)
        if l == lit(pos(sub(count, other))):
            return ("more", True)
        if l == lit(pos(add(sub(count, other), ONE))):
            return ("more", False)
        if l == lit(neg(pos(sub(count, other)))):
            return ("notmore", True)
        if l == lit(neg(pos(add(sub(count, other), ONE)))):
            return ("notmore", False)
        return None
    conds0, fresh = None, False
    stricts = set()
    from_none = from_some = False
    for conds, _ in ups:
        cl = [classify(a, p) for a, p in conds]
        if any(c is None for c in cl):
            return None
        f = frozenset(c[1] for c in cl if isinstance(c, tuple) and c[0] == "cond")
        st_ = [c[1] for c in cl if isinstance(c, tuple) and c[0] == "more"]
        if any(isinstance(c, tuple) and c[0] == "notmore" for c in cl):
            return None
        if "none" in cl:
            from_none = True
        elif st_:
            from_some = True
            stricts |= set(st_)
            if "some" not in cl:
                from_none = True
                fresh = fresh or not options
        else:
            return None
        if conds0 is None:
            conds0 = f
        elif conds0 != f:
            return None
    if not from_some or not from_none or len(stricts) != 1:
        return None
    strict = stricts.pop()
    if not options and not zero:
        return None
    for conds in keep:
        cl = [classify(a, p) for a, p in conds]
        ok = False
        for (a, p), c in zip(conds, cl):
            if isinstance(c, tuple) and c[0] == "cond" and lit(neg(c[1][0]) if c[1][1] else c[1][0]) in conds0:
                ok = True
            if isinstance(c, tuple) and c[0] == "notmore" and c[1] == strict and ("some" in cl or not options):
                ok = True
        if not ok:
            return None
    cs = list(conds0)
    if not options and strict:
        cs.append(lit(pos(count)))
    return list(F.a[1]), real(cs), val, upd
