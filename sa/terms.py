"""Hash-consed value numbers ("terms") with algebraic normal forms.

A term names a value by how it is computed.  Integer arithmetic is kept as linear
forms, comparisons as `pos(linear)` / `eq0(linear)`, sequences as push/cat/slice/fold
terms.  Two terms that are the same object denote the same value; nothing is assumed
about terms that differ.  No solver is used."""


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}


def raw(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


TRUE = raw("bool", True)
FALSE = raw("bool", False)
UNIT = raw("unit")
EMPTY = raw("list")
MOVED = raw("moved")


def I(n):
    return raw("int", n)


def B(b):
    return TRUE if b else FALSE


def S(b):
    if isinstance(b, str):
        b = b.encode()
    return raw("bytes", b)


def sym(*a):
    return raw("sym", *a)


def app(name, *args):
    return raw("app", name, *args)


ZERO = I(0)
ONE = I(1)


def isint(t):
    return t.op == "int"


# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return raw("lin", c, items)


def add(x, y):
    c, d = lin_parts(x)
    c2, d2 = lin_parts(y)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    # x - (x / n) * n is the remainder
    for t in [t for t in d if t.op == "mul" or t.op == "div"]:
        if t.op == "div" and not (isint(t.a[1]) and t.a[1].a[0] > 1):
            continue
        for q in ((t,) if t.op == "div" else [z for z in t.a if z.op == "div"]):
            x, n = q.a
            m, k = mul(q, n), d.get(x, 0)
            if k > 0 and (m is t and d[t] == -k or t.op == "div" and d[t] == -k * n.a[0]):
                d[x] = d[t] = 0
                r = rem(x, n)
                d[r] = d.get(r, 0) + k
                break
    return mk_lin(c + c2, d)


def scale(x, k):
    c, d = lin_parts(x)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})


def sub(x, y):
    return add(x, scale(y, -1))


def mul(x, y):
    if isint(x):
        return scale(y, x.a[0])
    if isint(y):
        return scale(x, y.a[0])
    fs = []
    for z in (x, y):
        fs += list(z.a) if z.op == "mul" else [z]
    fs.sort(key=lambda z: z.id)
    return raw("mul", *fs)


def div(x, y):
    if isint(y):
        n = y.a[0]
        if n == 1:
            return x
        if isint(x) and n:
            return I(x.a[0] // n)
        if x.op == "div" and isint(x.a[1]):
            return div(x.a[0], I(x.a[1].a[0] * n))
    return raw("div", x, y)


def rem(x, y):
    if isint(y) and isint(x) and y.a[0]:
        return I(x.a[0] % y.a[0])
    if isint(y) and y.a[0] == 1:
        return ZERO
    return raw("rem", x, y)


def ispow2(n):
    return n > 0 and n & (n - 1) == 0


def bitand(x, y):
    if isint(x) and not isint(y):
        x, y = y, x
    if isint(x) and isint(y):
        return I(x.a[0] & y.a[0])
    if isint(y) and y.a[0] >= 0 and ispow2(y.a[0] + 1):
        return rem(x, I(y.a[0] + 1))
    x, y = sorted((x, y), key=lambda z: z.id)
    return raw("band", x, y)


def shr(x, y):
    if isint(y):
        return div(x, I(1 << y.a[0])) if 0 <= y.a[0] < 128 else raw("shr", x, y)
    return raw("shr", x, y)


def shl(x, y):
    if isint(y) and 0 <= y.a[0] < 128:
        return scale(x, 1 << y.a[0])
    return raw("shl", x, y)


# ---------------------------------------------------------------- booleans
def pos(x):
    """x >= 1 over the integers; canonical orientation is chosen by `lit`."""
    c, d = lin_parts(x)
    if not d:
        return B(c >= 1)
    return raw("pos", x)


def lt(x, y):
    return pos(sub(y, x))


def le(x, y):
    return pos(add(sub(y, x), ONE))


def eq_int(x, y):
    z = sub(x, y)
    c, d = lin_parts(z)
    if not d:
        return B(c == 0)
    items = sorted(d.items(), key=lambda q: q[0].id)
    if items[0][1] < 0:
        z = scale(z, -1)
    return raw("eq0", z)


CONSTS = ("int", "bytes", "bool", "float", "unit")


def is_lit_seq(t):
    return t.op in ("bytes", "list")


def eq(x, y):
    if x is y:
        return TRUE
    if x.op in ("int", "lin") or y.op in ("int", "lin"):
        return eq_int(x, y)
    if x.op in CONSTS and y.op in CONSTS and x.op == y.op:
        return FALSE
    if x.op == "agg" and y.op == "agg":
        if x.a[1] != y.a[1]:
            return FALSE
        if x.a[2] == y.a[2]:
            # field-wise equality
            r = []
            for p, q in zip(x.a[3:], y.a[3:]):
                e = eq(p, q)
                if e is FALSE:
                    return FALSE
                if e is not TRUE:
                    r.append(e)
            if not r:
                return TRUE
            if len(r) == 1:
                return r[0]
    # normal form: equality of two literal-free sequences against the empty one
    for p, q in ((x, y), (y, x)):
        if (p.op == "list" and not p.a) or (p.op == "bytes" and not p.a[0]):
            return neg(pos(length(q)))
    # opt == Some(x)
    for p, q in ((x, y), (y, x)):
        if p.op == "agg" and not p.a[2] and q.op != "agg":
            return raw("is", q, p.a[1])
    x, y = sorted((x, y), key=lambda z: z.id)
    return raw("eq", x, y)


def neg(t):
    if t.op == "bool":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    if t.op == "pos":
        return pos(sub(ONE, t.a[0]))
    return raw("not", t)


def lit(t):
    """boolean term -> (atom, polarity) in canonical orientation."""
    if t.op == "not":
        a, p = lit(t.a[0])
        return a, not p
    if t.op == "pos":
        c, d = lin_parts(t.a[0])
        first = min(d.items(), key=lambda q: q[0].id)
        if first[1] < 0:
            return pos(sub(ONE, t.a[0])), False
        return t, True
    if t.op == "is":
        v = two_variant.get(t.a[1])
        if v and v[1] != t.a[1] or (v and v[1] == t.a[1]):
            if t.a[1] != v[1]:
                return raw("is", t.a[0], v[1]), False
    return t, True


# two-variant enums by variant name: (first, canonical)
two_variant = {
    "None": ("None", "Some"), "Some": ("None", "Some"),
    "Ok": ("Err", "Ok"), "Err": ("Err", "Ok"),
    "Continue": ("Break", "Continue"), "Break": ("Break", "Continue"),
}


def register_two_variant(a, b):
    if a in two_variant or b in two_variant:
        return
    two_variant[a] = (a, b)
    two_variant[b] = (a, b)


def is_variant(t, v):
    if t.op == "agg":
        return B(t.a[1] == v)
    if t.op == "with":
        return is_variant(t.a[0], v)
    if t.op == "app" and t.a[0] == "minsert_old":
        pass
    return raw("is", t, v)


# ---------------------------------------------------------------- aggregates
def agg(name, variant, fields, vals):
    return raw("agg", name, variant, tuple(fields), *vals)


def tup(*vals):
    return agg("()", "", tuple(str(i) for i in range(len(vals))), vals)


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = agg(OPT, "None", (), ())


def Some(x):
    return agg(OPT, "Some", ("0",), (x,))


def Ok(x):
    return agg(RES, "Ok", ("0",), (x,))


def Err(x):
    return agg(RES, "Err", ("0",), (x,))


def field(t, f):
    if t.op == "agg":
        if f in t.a[2]:
            return t.a[3 + t.a[2].index(f)]
        return raw("field", t, f)
    if t.op == "with":
        for k, v in t.a[1]:
            if k == f:
                return v
        return field(t.a[0], f)
    if t is MOVED:
        return MOVED
    return raw("field", t, f)


def payload(t, v, f="0"):
    if t.op == "agg" and t.a[1] == v:
        return field(t, f)
    if t.op == "with":
        return field(raw("with", t.a[0], t.a[1]), f) if any(k == f for k, _ in t.a[1]) else payload(t.a[0], v, f)
    if t.op == "app" and t.a[0] == "opt":
        # opaque option with a named payload: app("opt", some_cond_tag, payload)
        if v == "Some":
            return t.a[2]
    return raw("payload", t, v, f)


def set_field(t, f, x):
    if t.op == "agg" and f in t.a[2]:
        i = t.a[2].index(f)
        vals = list(t.a[3:])
        vals[i] = x
        return raw("agg", t.a[0], t.a[1], t.a[2], *vals)
    if t.op == "with":
        d = dict(t.a[1])
        base = t.a[0]
    else:
        d = {}
        base = t
    d[f] = x
    # drop trivial updates
    for k in list(d):
        if d[k] is field(base, k):
            del d[k]
    if not d:
        return base
    return raw("with", base, tuple(sorted(d.items())))


# ---------------------------------------------------------------- sequences
LEN_OF = {}     # lengths of loop values that keep the length they had before the loop


def length(v):
    o = v.op
    if o == "phi" and len(v.a) == 4:
        return LEN_OF[v.a[3]]
    if o == "bytes":
        return I(len(v.a[0]))
    if o == "list":
        return I(len(v.a))
    if o == "push":
        return add(length(v.a[0]), ONE)
    if o == "cat":
        r = ZERO
        for x in v.a:
            r = add(r, length(x))
        return r
    if o == "store":
        return length(v.a[0])
    if o == "rep":
        return v.a[1]
    if o == "slice":
        hi = v.a[2]
        return sub(length(v.a[0]) if hi is None else hi, v.a[1])
    if o == "mapupd":
        return length(v.a[1])
    if o == "build" and len(v.a[2]) == 1 and len(v.a[3]) == 1 and not v.a[3][0][0]:
        return add(length(v.a[1]), mul(v.a[2][0], I(len(v.a[3][0][1]))))
    if o == "app" and v.a[0] in ("sorted", "sorted_by", "reversed", "lower_ascii", "swapped", "filled"):
        return length(v.a[1])
    if o in ("out", "brk") and isinstance(v.a[1], int) and v.a[0].op == "fold":
        # a loop that only replaces elements keeps the length
        F, i = v.a
        me = raw("phi", F.a[0], i)
        if F.a[3] and all(stores_on(vals[i], me) for _, vals in F.a[3]):
            return length(F.a[2][i])
    return raw("len", v)


def stores_on(t, base):
    while t.op == "store":
        t = t.a[0]
    return t is base


def push(v, x):
    if v.op == "list":
        return raw("list", *(v.a + (x,)))
    return raw("push", v, x)


def cat(*parts):
    out = []
    for p in parts:
        for q in (p.a if p.op == "cat" else (p,)):
            if (q.op == "bytes" and not q.a[0]) or (q.op == "list" and not q.a):
                continue
            if out and out[-1].op == "bytes" and q.op == "bytes":
                out[-1] = S(out[-1].a[0] + q.a[0])
                continue
            if out and out[-1].op == "list" and q.op == "list":
                out[-1] = raw("list", *(out[-1].a + q.a))
                continue
            out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return raw("cat", *out)


def slice_(v, lo, hi):
    """v[lo..hi], hi None = to the end."""
    if isint(lo) and lo.a[0] == 0 and (hi is None or hi is length(v)):
        return v
    if hi is not None and hi is length(v):
        hi = None
    if v.op == "bytes" and isint(lo) and (hi is None or isint(hi)):
        return S(v.a[0][lo.a[0]:(None if hi is None else hi.a[0])])
    if v.op == "list" and isint(lo) and (hi is None or isint(hi)):
        return raw("list", *v.a[lo.a[0]:(None if hi is None else hi.a[0])])
    if v.op == "slice":
        b, l0, h0 = v.a
        return slice_(b, add(l0, lo), h0 if hi is None else add(l0, hi))
    if v.op == "cat":
        parts, l, h = list(v.a), lo, hi
        while len(parts) > 1:
            # parts certainly before the slice
            n = length(parts[0])
            if not nonneg_diff(sub(l, n)):
                break
            l = sub(l, n)
            h = None if h is None else sub(h, n)
            parts.pop(0)
        while len(parts) > 1 and h is not None:
            # parts certainly behind it
            n = ZERO
            for q in parts[:-1]:
                n = add(n, length(q))
            if not nonneg_diff(sub(n, h)):
                break
            parts.pop()
        if len(parts) < len(v.a):
            return slice_(cat(*parts), l, h)
    return raw("slice", v, lo, hi)


def nonneg_diff(x):
    """is the linear form x certainly >= 0 (all-nonneg atoms)?"""
    c, d = lin_parts(x)
    return c >= 0 and all(k >= 0 and is_nonneg(t) for t, k in d.items())


NONNEG = {"len", "iota", "bv", "rem"}


def is_nonneg(t):
    if t.op == "int":
        return t.a[0] >= 0
    if t.op in NONNEG:
        return True
    if t.op == "mul" or t.op == "div":
        return all(is_nonneg(x) for x in t.a)
    if t.op == "lin":
        return t.a[0] >= 0 and all(k >= 0 and is_nonneg(x) for x, k in t.a[1])
    return False


def idx(v, i):
    o = v.op
    if o == "bytes" and isint(i) and 0 <= i.a[0] < len(v.a[0]):
        return I(v.a[0][i.a[0]])
    if o == "list" and isint(i) and 0 <= i.a[0] < len(v.a):
        return v.a[i.a[0]]
    if o == "rep":
        return v.a[0]
    if o == "push":
        if length(v.a[0]) is i:
            return v.a[1]
        # an index certainly below the old length
        if nonneg_diff(sub(sub(length(v.a[0]), i), ONE)):
            return idx(v.a[0], i)
    if o == "store":
        if v.a[1] is i:
            return v.a[2]
        d = sub(v.a[1], i)
        if isint(d) and d.a[0] != 0:
            return idx(v.a[0], i)
        if v.a[1].op == "bytes" and i.op == "bytes":
            return idx(v.a[0], i)
    if o == "slice":
        return idx(v.a[0], add(v.a[1], i))
    if o == "cat":
        off = ZERO
        for q, p in enumerate(v.a):
            j = sub(i, off)
            n = length(p)
            if q == len(v.a) - 1 and isint(j) and j.a[0] >= 0:
                # past all other parts: a valid index is in the last one
                return idx(p, j)
            if isint(j) and isint(n):
                if j.a[0] < n.a[0]:
                    return idx(p, j)
            elif isint(j) and j.a[0] < 0:
                break
            else:
                if j is n or nonneg_diff(sub(j, n)):
                    off = add(off, n)
                    continue
                if nonneg_diff(sub(sub(n, j), ONE)):
                    return idx(p, j)
                break
            off = add(off, n)
    if o == "build" and v.a[1].op == "list" and not v.a[1].a and len(v.a[2]) == 1 and len(v.a[3]) == 1 and not v.a[3][0][0] and len(v.a[3][0][1]) == 1:
        return subst(v.a[3][0][1][0], {raw("bv", v.a[0]): i})
    if o == "mapupd":
        return subst(v.a[3], {raw("bv", v.a[0]): i})
    if o == "app" and v.a[0] == "reversed":
        return idx(v.a[1], sub(sub(length(v.a[1]), ONE), i))
    return raw("idx", v, i)


def store(v, i, x):
    if x.op == "idx" and x.a[0] is v and x.a[1] is i:
        return v
    if v.op == "store" and v.a[1] is i:
        return store(v.a[0], i, x)
    if v.op == "list" and isint(i) and 0 <= i.a[0] < len(v.a):
        l = list(v.a)
        l[i.a[0]] = x
        return raw("list", *l)
    return raw("store", v, i, x)


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(op, a):
    if op == "lin":
        r = I(a[0])
        for t, k in a[1]:
            r = add(r, scale(t, k))
        return r
    if op == "mul":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    if op == "div":
        return div(*a)
    if op == "rem":
        return rem(*a)
    if op == "band":
        return bitand(*a)
    if op == "shr":
        return shr(*a)
    if op == "shl":
        return shl(*a)
    if op == "pos":
        return pos(a[0])
    if op == "eq0":
        return eq_int(a[0], ZERO)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return neg(a[0])
    if op == "is":
        return is_variant(*a)
    if op == "field":
        return field(*a)
    if op == "payload":
        return payload(*a)
    if op == "with":
        r = a[0]
        for k, v in a[1]:
            r = set_field(r, k, v)
        return r
    if op == "len":
        return length(a[0])
    if op == "push":
        return push(*a)
    if op == "cat":
        return cat(*a)
    if op == "slice":
        return slice_(*a)
    if op == "idx":
        return idx(*a)
    if op == "store":
        return store(*a)
    if op == "sel":
        return mk_sel(a[0])
    return raw(op, *a)


def map_args(a, f):
    out = []
    for x in a:
        if isinstance(x, T):
            out.append(f(x))
        elif isinstance(x, tuple):
            out.append(map_args(x, f))
        elif isinstance(x, frozenset):
            out.append(frozenset(map_args(tuple(x), f)))
        else:
            out.append(x)
    return tuple(out)


def norm_lits(fs):
    """conds: frozenset of (atom, pol) -> renormalised frozenset or None if contradictory"""
    out = {}
    for atom, p in fs:
        if atom.op == "bool":
            if atom.a[0] != p:
                return None
            continue
        a, q = lit(atom)
        p2 = p if q else not p
        if a in out and out[a] != p2:
            return None
        out[a] = p2
    return frozenset(out.items())


def mk_sel(cases):
    """the value of the case that holds (the cases are exclusive and cover everything)"""
    live = []
    for c, v in cases:
        n = norm_lits(frozenset(c))
        if n is not None:
            live.append((tuple(sorted(n, key=lambda q: (q[0].id, q[1]))), v))
    vals = {v for _, v in live}
    if len(vals) == 1:
        return next(iter(vals))
    return raw("sel", tuple(sorted(live, key=lambda q: (tuple((a.id, p) for a, p in q[0]), q[1].id))))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if not m:
        return t
    lo = min([k.id for k in m])         # a term is younger than what it is made of

    def go(x):
        if x.id < lo:
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        na = map_args(x.a, go)
        r = x if all(p is q or p == q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        memo[x] = r
        return r

    return go(t)


def rewrite(t, fold, memo=None):
    """bottom-up renormalisation with extra folding rules: fold(term) -> term or None"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        na = map_args(x.a, go)
        r = x if all(p is q or p == q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        while True:
            y = fold(r)
            if y is None or y is r:
                break
            r = go(y) if y not in memo else memo[y]
            break
        memo[x] = r
        return r

    return go(t)


def exhaustive(sets):
    """do the literal sets cover every truth assignment of their atoms (at most 12 atoms)"""
    atoms = sorted({a for s in sets for a, _ in s}, key=lambda z: z.id)
    if len(atoms) > 12:
        return False
    for m in range(1 << len(atoms)):
        v = {a: bool(m >> i & 1) for i, a in enumerate(atoms)}
        if not any(all(v[a] == p for a, p in s) for s in sets):
            return False
    return True


def walk(t):
    """all distinct subterms"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


def walk_above(t, lo):
    """the distinct subterms that are not older than a term of number lo"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x.id < lo or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


def mentions_any(t, xs):
    """does t contain one of the terms xs"""
    xs = set(xs)
    lo = min([x.id for x in xs], default=0)
    return any(y in xs for y in walk_above(t, lo))


def contains(t, pred):
    for x in walk(t):
        if pred(x):
            return True
    return False


_mbv = {}


def max_bv(t):
    """greatest number of a bound variable in t"""
    r = _mbv.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _mbv:
            st.pop()
            continue
        kids, todo = [], list(x.a)
        while todo:
            y = todo.pop()
            if isinstance(y, T):
                kids.append(y)
            elif isinstance(y, (tuple, frozenset)):
                todo.extend(y)
        new = [y for y in kids if y not in _mbv]
        if new:
            st += new
            continue
        m = max([_mbv[y] for y in kids], default=0)
        if x.op == "bv":
            m = max(m, x.a[0])
        _mbv[x] = m
        st.pop()
    return _mbv[t]


_budget = [0]


def show(t, d=0):
    """readable form, cut off when too long"""
    if d == 0:
        _budget[0] = 700
    _budget[0] -= 1
    if _budget[0] < 0:
        return "…"
    if t is None:
        return "-"
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(show(x, d) for x in t) + "}"
        return str(t)
    o = t.op
    if d > 40:
        return "..."
    s = lambda x: show(x, d + 1)
    if o in ("int", "bool", "float"):
        return str(t.a[0])
    if o == "bytes":
        return repr(t.a[0])[1:]
    if o == "unit":
        return "()"
    if o == "sym":
        return "$" + ".".join(str(x) for x in t.a)
    if o == "lin":
        r = []
        for x, k in t.a[1]:
            r.append(("" if k == 1 else "%d*" % k) + s(x))
        if t.a[0]:
            r.append(str(t.a[0]))
        return "(" + " + ".join(r) + ")"
    if o == "agg":
        n = t.a[0].split("::")[-1]
        if t.a[1] and t.a[1] != n:
            n += "::" + t.a[1]
        if not t.a[2]:
            return n
        return n + "{" + ", ".join("%s:%s" % (f, s(v)) for f, v in zip(t.a[2], t.a[3:])) + "}"
    if o == "with":
        return s(t.a[0]) + "{" + ", ".join("%s=%s" % (k, s(v)) for k, v in t.a[1]) + "}"
    if o == "field":
        return s(t.a[0]) + "." + t.a[1]
    if o == "payload":
        return s(t.a[0]) + "!" + t.a[1] + ("" if t.a[2] == "0" else "." + t.a[2])
    if o == "idx":
        return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if o == "slice":
        return "%s[%s..%s]" % (s(t.a[0]), s(t.a[1]), "" if t.a[2] is None else s(t.a[2]))
    if o == "list":
        return "[" + ", ".join(s(x) for x in t.a) + "]"
    if o == "iota":
        return "i%s" % t.a[0]
    if o == "bv":
        return "j%s" % t.a[0]
    if o == "app":
        return "%s(%s)" % (t.a[0], ", ".join(show(x, d + 1) for x in t.a[1:]))
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in t.a))
