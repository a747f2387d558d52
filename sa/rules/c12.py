"""C12 results are deterministic"""
import copy
import re
from ctx import *
from crate import Crate
from engine import Fn
import c01
import c02

RULE = ("information flow from every source of non-determinism in live code (clock, random numbers, processor count and thread scheduling, order of hash tables, process state): "
        "parallel tokenisation is independent of the schedule (every sample is tokenised once by one of the workers, all results are merged by addition, and what a sample adds "
        "does not depend on what was counted before or on a scratch buffer); a random source is reached only with a sample limit that is never set; "
        "the order of a hash table is followed by sorting or only affects sums, maxima and other sets; any other source reaches neither results, saved data nor decisions")
TECHNIQUE = "information-flow (taint and non-interference) analysis over function summaries and the call graph"

SOURCES = [
    ("clock", r"(^|::)time::(Instant::(now|elapsed)|SystemTime::(now|elapsed))"),
    ("random", r"^(rand|rand_core|getrandom|fastrand|uuid)\b|RandomState|DefaultHasher|BuildHasher|hash_one"),
    ("threads", r"(^|::)thread::(available_parallelism|current|Thread|ThreadId|sleep|park|yield|spawn|scope|Scope|Builder)|(^|::)mpsc::(\w+::(<\w+>::)?)?(recv|try_recv|recv_timeout|iter|try_iter|send|try_send)\b"
                r"|sync::(atomic|Mutex|RwLock|Condvar|Barrier|Once|poison)|num_cpus|rayon"),
    ("process", r"(^|::)env::(var|vars|temp_dir|current_dir)|process::id|fs::read_dir|(^|::)alloc::|type_name|addr_of|(^|::)ptr::"),
]
MADE = ("new", "with_capacity", "default", "channel", "sync_channel", "from", "fmt", "hash")     # making a shared object has no outcome
SINKS = r"(^|::)fs::(write|File::(create|create_new|options|set_len)|OpenOptions|rename|copy|remove_file|hard_link)|(^|::)Write::(write|write_all|write_fmt|write_vectored)$|serde_json::(to_writer|to_writer_pretty)|BufWriter|set_len"
HASH = re.compile(r"hash_map::|hash_set::|HashMap<|HashSet<")
# calls on a hash table whose result does not depend on its order
LOOKUP = {"insert", "get", "get_mut", "contains_key", "contains", "entry", "or_insert", "or_insert_with", "or_default", "and_modify", "remove", "take", "replace", "len",
          "is_empty", "clear", "new", "with_capacity", "default", "shrink_to_fit", "reserve", "index", "clone", "drop", "eq", "ne", "is_subset", "is_superset", "is_disjoint",
          "capacity", "get_key_value", "key", "insert_entry", "or_insert_with_key", "get_or_insert_with", "from", "from_iter", "collect", "next", "map", "filter", "get_many_mut", "deref", "borrow", "as_ref",
          "clone_from", "remove_entry", "try_insert", "into_mut", "get_or_insert", "mem::drop", "swap", "unwrap", "expect"}
ORDERED = {"iter", "into_iter", "keys", "values", "into_keys", "into_values", "difference", "union", "intersection", "symmetric_difference", "drain",
           "iter_mut", "values_mut"}


def kind_of(path):
    for k, r in SOURCES:
        if re.search(r, path):
            return k
    return None


def site_kind(rec, call):
    """what a call makes non-deterministic, or None"""
    k = kind_of(rec["path"])
    if k:
        if rec["name"] in MADE and k in ("threads", "random", "process"):
            return None
        return k
    tys = [str(t) for t in (call.get("argtys") or ())]
    if any(HASH.search(t) for t in tys) or "HashMap" in rec["path"] or "HashSet" in rec["path"] or "hash_map" in rec["path"] or "hash_set" in rec["path"]:
        if rec["key"] and rec.get("local"):
            return None
        n = rec["name"]
        table = [t for t in tys if re.match(r"^(&('\w+ )?(mut )?)*std::collections::(hash::)?(HashMap|HashSet)<", t)]
        if n in LOOKUP and not (n in ("collect", "from_iter") and False):
            return None
        if n in ORDERED and (table or "Hash" in rec["path"]):
            return "order"
        if table:
            return "order"
    return None


# ------------------------------------------------------------------ labels of terms
class Labels:
    def __init__(self, tainted_ret, tainted_mut):
        self.ret, self.mut = tainted_ret, tainted_mut
        self.memo = {}

    def of(self, t):
        if not isinstance(t, T):
            if isinstance(t, (tuple, list, frozenset)):
                out = frozenset()
                for x in t:
                    out |= self.of(x)
                return out
            return frozenset()
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        o = t.op
        if o == "len" and table_of(t.a[0]) is not None:
            return self.of(table_of(t.a[0]))
        if table_of(t) is not None:
            return self.of(table_of(t)) | {"order"}
        if o == "app" and t.a[0] == "sorted":
            p = self.permutation(t.a[1])
            return p if p is not None else self.of(t.a[1:])
        if o == "app" and t.a[0] == "sorted_by":
            p = self.permutation(t.a[1])
            if p is not None and whole_key(t.a[2]):
                return p | self.of(t.a[2:])
            return self.of(t.a[1:])
        if o in ("out", "brk") and t.a[0].op == "fold":
            c = self.commutes(t.a[0], t.a[1]) if o == "out" else None
            if c is not None:
                return c
        if o in ("exists", "min", "max") or o == "app" and t.a[0] in ("min", "max"):
            c = self.any_of(t)
            if c is not None:
                return c
        out = frozenset()
        if o in ("ev", "app", "call", "mutout") and t.a and isinstance(t.a[0], str):
            n = t.a[0]
            if o == "call" and n in self.ret:
                out |= self.ret[n]
            if o == "mutout" and (n, t.a[1]) in self.mut:
                out |= self.mut[(n, t.a[1])]
            if o != "call" and o != "mutout":
                k = kind_of(n) or kind_of("::" + n)
                if k:
                    out |= {k}
        for x in t.a:
            out |= self.of(x)
        return out

    def permutation(self, t):
        """t lists values that do not depend on the order of a table, in its order: labels left when the order does not matter"""
        p = table_of(t)
        if p is not None:
            return self.of(p)
        if t.op == "build" and t.a[1] is EMPTY and len(t.a[2]) == 1 and t.a[2][0].op == "len":
            src = t.a[2][0].a[0]
            inner = self.permutation(src)
            if inner is None:
                return None
            e = idx(src, raw("bv", t.a[0]))
            cases = subst(raw("list", *[raw("case", raw("list", *[c for c, _ in cs]), raw("list", *es)) for cs, es in t.a[3]]), {e: sym("element")})
            if has(cases, lambda x: x is raw("bv", t.a[0]) or x is src):
                return None
            return inner | self.of(cases)
        if t.op in ("cat", "push"):
            out = frozenset()
            for x in t.a:
                p = self.permutation(x) if isinstance(x, T) else frozenset()
                if p is None:
                    return None
                out |= p
            return out
        if "order" not in self.of(t):
            return self.of(t)
        return None

    def commutes(self, F, i):
        """a variable of a loop over a table that does not depend on the order of the elements"""
        h, trips, inits, cases = F.a[0], F.a[1], F.a[2], F.a[3]
        if len(F.a) > 4 and F.a[4] or len(trips) != 1 or trips[0].op != "len" or not isinstance(i, int):
            return None
        src = trips[0].a[0]
        inner = self.permutation(src)
        if inner is None:
            return None
        me = raw("phi", h, i)
        e, bv, new = idx(src, raw("bv", h)), raw("bv", h), sym("element")
        out = self.of(inits[i]) | inner
        ops = set()
        for conds, vals in cases:
            v = subst(vals[i], {e: new})
            cs = [subst(a, {e: new}) for a, _ in conds]
            other = lambda x: x.op == "phi" and x.a[0] == h or x is bv or x is src
            k, rest = update(v, me)
            if k == "same":
                # which elements are left out may be decided by a comparison with the maximum so far
                if any(has(c, lambda x: other(x) and x is not me) for c in cs):
                    return None
                continue
            if k is None or any(has(x, other) for x in rest):
                return None
            if any(has(c, lambda x: other(x) and not (x is me and k in ("max", "value"))) for c in cs):
                return None
            ops.add(k)
            out |= self.of(raw("list", *rest)) | self.of(raw("list", *cs))
        if len(ops) > 1:
            return None
        if ops == {"value"} and not extremum(cases, me, i, e):
            return None
        if "value" not in ops and any(has(a, lambda x: x is me) for conds, _ in cases for a, _ in conds):
            return None
        return out

    def any_of(self, t):
        """is there an element ..., the greatest element"""
        if t.op == "exists":
            h, trips, lits = t.a
            if len(trips) != 1 or trips[0].op != "len":
                return None
            src = trips[0].a[0]
            inner = self.permutation(src)
            if inner is None:
                return None
            e = idx(src, raw("bv", h))
            cs = [subst(a, {e: sym("element")}) for a, _ in lits]
            if any(has(c, lambda x: x is src or x is raw("bv", h)) for c in cs):
                return None
            return inner | self.of(raw("list", *cs))
        out = frozenset()
        some = False
        for x in t.a:
            if isinstance(x, T):
                p = self.permutation(x)
                if p is None:
                    return None
                out |= p
        return out


def has(t, pred):
    return first(t, pred) is not None


def table_of(t):
    """the table that t lists in its own order"""
    if t.op == "app" and t.a[0] in ("hashiter", "hashkeys", "hashvals"):
        return t.a[1]
    return None


def whole_key(lam):
    """does sorting compare whole elements"""
    s = show(lam)
    return lam.op == "app" and lam.a[0] == "lam" and False


def update(v, me):
    """(operation, operands) of a loop variable"""
    if v is me:
        return "same", []
    if v.op == "app" and v.a[0] in ("minsert", "mremove"):
        if v.a[1] is me:
            return v.a[0], list(v.a[2:])
        return None, []
    if v.op in ("max", "min") or v.op == "app" and v.a[0] in ("max", "min"):
        xs = [x for x in v.a if isinstance(x, T)]
        if me in xs:
            return "max", [x for x in xs if x is not me]
    d = sub(v, me)
    if not has(d, lambda x: x is me):
        return "add", [d]
    if not has(v, lambda x: x is me):
        return "value", [v]
    return None, []


def extremum(cases, me, i, e):
    """the variable takes the element when that is greater (or less) than it is"""
    for conds, vals in cases:
        v = vals[i]
        if v is me:
            continue
        ok = False
        for a, q in conds:
            if a.op == "pos" and a.a[0] in (sub(v, me), sub(me, v)) and q:
                ok = True
            if a.op == "pos" and not q and add(a.a[0], ZERO) in (add(sub(v, me), ONE), add(sub(me, v), ONE)):
                ok = True
        if not ok:
            return False
    return True


# ------------------------------------------------------------------ the check
def check(ctx):
    cr = Crate(ctx)
    live = cr.live()
    ctx.floor("live functions", len(live), 40)
    sites, nsites = [], 0
    for k in sorted(live):
        for rec, call in cr.sites[k]:
            nsites += 1
            s = site_kind(rec, call)
            if s:
                sites.append((k, s, rec, call))
    ctx.floor("call sites looked at", nsites, 400)
    statics(ctx, cr, live)
    addresses(ctx, cr, live)
    par = parallel(ctx, cr)
    todo = {}
    for k, s, rec, call in sites:
        if s == "threads" and par and cr.only_from(k, {par} | {c for c in cr.reach([par])} if False else {par}):
            ctx.ob("source", "%s in parallel tokenisation" % rec["name"], True, call["span"], "", cr.name_of.get(k, k))
            continue
        f = outer(cr, k)
        todo.setdefault(f, []).append((s, rec, call))
    F = Flow(ctx, cr, live, todo)
    F.run()


def addresses(ctx, cr, live):
    """numbers made of addresses"""
    def casts(x):
        if isinstance(x, list):
            if len(x) == 5 and x[0] == "cast" and isinstance(x[1], str):
                yield x
            for y in x:
                yield from casts(y)
        elif isinstance(x, dict):
            for y in x.values():
                yield from casts(y)
    n = 0
    for k in sorted(live):
        f = ctx.prog.fns[k]
        for x in casts(f):
            n += 1
            bad = "Expose" in x[1] or x[1] == "Transmute" and re.match(r"^(&|\*)", str(x[3])) and re.match(r"^[ui](8|16|32|64|128|size)$", str(x[4]))
            ctx.ob("source", "address", not bad, f.get("span"), "an address is used as a number", cr.name_of.get(k, k))
        for rec, call in cr.sites[k]:
            ctx.ob("source", "address shown", "fmt::Pointer" not in rec["path"] and not rec["path"].endswith("new_pointer"), call["span"], "an address is shown", cr.name_of.get(k, k))
    ctx.floor("conversions", n, 20)


def outer(cr, k):
    return k.split("::{closure")[0]


def statics(ctx, cr, live):
    """shared state other than through arguments"""
    n = 0
    for k, a in ctx.prog.adts.items():
        for v in a["variants"]:
            for f in v["fields"]:
                n += 1
                bad = re.search(r"\b(Cell|RefCell|OnceCell|Mutex|RwLock|Atomic\w+|OnceLock|LazyLock|LazyCell)\b", f[1])
                used = bool(bad) and any(k.split("::")[-1] in ctx.prog.fns[x].get("sig", "") for x in live)
                ctx.ob("state", "%s.%s" % (k, f[0]), not used, a.get("span"), "the field %s of %s is shared state that changes behind a shared reference" % (f[0], k), k)
    ctx.floor("fields of types", n, 20)


# ------------------------------------------------------------------ parallel tokenisation
def parallel(ctx, cr):
    """key of the function whose result does not depend on the schedule, or None"""
    for m in (c01, c02):
        sub_ = copy.copy(ctx)
        sub_.obs = []
        m.check(sub_)
        ctx.paths = sub_.paths
        ctx.loops = sub_.loops
        for o in sub_.obs:
            ctx.ob("schedule: " + o.rule, o.inst, o.ok, o.where, o.msg, o.fn)
    e = ctx.fn(c02.ENTRY)
    history(ctx)
    return e.d["key"] if e else None


def history(ctx):
    """what a sample adds to the statistics depends on the sample and the tokeniser only"""
    n = c02.SLICE
    f = ctx.fn(n)
    ps, _ = ctx.run(n)
    if not f:
        return
    w = ctx.where_fn(n)
    counters = [x for x, ty in ctx.fields("TokenStats") if ty == "u64" or ty.startswith("std::vec::Vec<u64")]
    args = [sym("arg", i) for i in range(f.d["argc"])]
    import c13
    tys = c13.sig_args(f)
    st = [i for i, t in enumerate(tys[:f.d["argc"]]) if "&mut" in t and "TokenStats" in t]
    if not ctx.ob("history", "statistics", len(st) == 1, w, "%d parameters of the tokeniser are statistics" % len(st), n):
        return
    stats = args[st[0]]
    scratch = [args[i] for i, t in enumerate(tys[:f.d["argc"]]) if "&mut" in t and i != st[0]]
    olds = {field(stats, c): c for c in counters}
    for p in ps:
        fin = p.upd.get(("P", st[0]), stats)
        for a, _ in p.conds:
            t = first(a, lambda x: x in scratch or x in olds, stop_len=True)
            ctx.ob("history", "way through", t is None, w, "what is done with a sample depends on %s" % show(t) if t is not None else "", n)
        for c in counters:
            x = field(fin, c)
            why = accumulates(x, field(stats, c), lambda y: y in scratch or y in olds)
            ctx.ob("history", c, why is None, w, "%s is not increased by an amount of the sample alone: %s" % (c, show(why)[:200] if why is not None else ""), n)
    ctx.floor("ways to tokenise a sample", len(ps), 1)


def first(t, bad, stop_len=False):
    """a bad subterm (not counting the length of one); loop variables are looked for where they are free only"""
    seen = set()

    def go(t, bound):
        if not isinstance(t, T):
            if isinstance(t, (tuple, list, frozenset)):
                for x in t:
                    r = go(x, bound)
                    if r is not None:
                        return r
            return None
        if (t, bound) in seen:
            return None
        seen.add((t, bound))
        if bad(t) and not (t.op in ("phi", "bv") and t.a[0] in bound):
            return t
        if stop_len and t.op == "len" and isinstance(t.a[0], T) and bad(t.a[0]):
            return None
        if t.op in ("fold", "build", "mapupd", "mapupd_min", "mapupd_part", "exists"):
            inner = bound | {t.a[0]}
            # what the loop starts from is outside of it
            outside = {"fold": (1, 2), "exists": (1,)}.get(t.op, (1, 2))
            for i, x in enumerate(t.a[1:], 1):
                r = go(x, bound if i in outside else inner)
                if r is not None:
                    return r
            return None
        for x in t.a:
            r = go(x, bound)
            if r is not None:
                return r
        return None
    return go(t, frozenset())


def accumulates(t, base, bad, depth=0):
    """None if t is base with amounts added that do not depend on anything counted, else the term at fault"""
    if t is base:
        return None
    if depth > 40:
        return t
    if t.op == "lin":
        me = [x for x, k in t.a[1] if k == 1 and accumulates(x, base, bad, depth + 1) is None and contains(x, lambda y: y is base)]
        if len(me) != 1:
            return t
        return first(raw("lin", t.a[0], tuple((x, k) for x, k in t.a[1] if x is not me[0])), bad)
    if t.op == "store":
        r = accumulates(t.a[0], base, bad, depth + 1)
        if r is not None:
            return r
        d = sub(t.a[2], idx(t.a[0], t.a[1]))
        for x in (d, t.a[1]):
            r = first(x, lambda y: bad(y) or y is base or y is t.a[0], True)
            if r is not None:
                return t
        return None
    if t.op in ("mapupd", "mapupd_min", "mapupd_part"):
        h, init, trips, el = t.a
        r = accumulates(init, base, bad, depth + 1)
        if r is not None:
            return r
        r = first(sub(el, idx(init, raw("bv", h))), lambda y: bad(y) or y is base, True)
        return None if r is None else t
    if t.op == "build":
        h, init, trips, cases = t.a
        if init is EMPTY and len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1:
            r = first(sub(cases[0][1][0], idx(base, raw("bv", h))), lambda y: bad(y) or y is base, True)
            return None if r is None else t
        return t
    if t.op in ("out", "brk") and isinstance(t.a[1], int) and t.a[0].op == "fold":
        F, i = t.a
        h, inits = F.a[0], F.a[2]
        me = raw("phi", h, i)
        r = accumulates(inits[i], base, bad, depth + 1)
        if r is not None:
            return r
        worse = lambda y: bad(y) or y is base or y is me
        rest = [F.a[1], [x for j, x in enumerate(inits) if j != i], F.a[4] if len(F.a) > 4 else ()]
        for conds, vals in F.a[3]:
            r = accumulates(vals[i], me, lambda y: bad(y) or y is base, depth + 1)
            if r is not None:
                return r
            rest += [[a for a, _ in conds], [x for j, x in enumerate(vals) if j != i]]
        r = first(rest, worse, True)
        return None if r is None else t
    return t


# ------------------------------------------------------------------ flow of everything else
class Flow:
    def __init__(self, ctx, cr, live, todo):
        self.ctx, self.cr, self.live, self.todo = ctx, cr, live, todo
        self.ret, self.mut = {}, {}
        self.sinks = self.sink_functions()
        self.never = {}
        self.named = {f.d["key"]: n for n, f in ctx._names.items()}

    def sink_functions(self):
        direct = set()
        for k in self.live:
            for rec, call in self.cr.sites[k]:
                if re.search(SINKS, rec["path"]) and not any("Std" in str(t) for t in (call.get("argtys") or ())[:1]):
                    direct.add(k)
        out = set(direct)
        st = list(direct)
        while st:
            for b in self.cr.back.get(st.pop(), ()):
                if b not in out:
                    out.add(b)
                    st.append(b)
        return out

    def run(self):
        work = sorted(self.todo)
        seen = {}
        while work:
            k = work.pop(0)
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 4 or k not in self.ctx.prog.fns:
                continue
            before = self.result(k)
            self.function(k)
            if self.result(k) != before or seen[k] == 1 and self.result(k) != ((), ()):
                n = self.named.get(k, k)
                f = self.ctx.prog.fns[k]
                tr = f.get("impl_trait")
                local = tr and any(i["trait"] == tr for i in self.ctx.prog.impls) and not tr.startswith(("std::", "core::"))
                if tr and not local:
                    self.ctx.ob("flow", "called from the library", False, f["span"], "the outcome of %s depends on %s" % (n, ", ".join(sorted(self.labels_of(k)))), n)
                    continue
                for b in sorted(self.cr.back.get(k, ())):
                    if b in self.live:
                        o = outer(self.cr, b)
                        if o != k and o not in work:
                            work.append(o)

    def labels_of(self, k):
        n = self.named.get(k, k)
        out = set(self.ret.get(n, ()))
        for (m, i), l in self.mut.items():
            if m == n:
                out |= l
        return out

    def result(self, k):
        n = self.named.get(k, k)
        return (tuple(sorted(self.ret.get(n, ()))), tuple(sorted((i, tuple(sorted(l))) for (m, i), l in self.mut.items() if m == n)))

    def function(self, k):
        ctx, cr = self.ctx, self.cr
        n = self.named.get(k)
        for s, rec, call in self.todo.get(k, ()):
            if s == "order" and rec["name"] == "retain" and not writes(call):
                continue
            if s == "order" and rec["name"] not in ORDERED:
                ctx.ob("source", rec["name"], False, call["span"], "%s goes through a hash table in its own order" % rec["name"], n or k)
        if n is None:
            ctx.ob("source", "function", False, ctx.prog.fns[k]["span"], "a source of non-determinism in a function without a summary", k)
            return
        opaque = tuple(sorted(m for kk, m in self.named.items() if kk != k and "{closure" not in kk))
        ps, _ = ctx.run(n, opaque)
        w = ctx.where_fn(n)
        ps = [p for p in ps if not self.dead(p.conds, k)]
        lab = Labels(self.ret, self.mut)
        out, muts = set(), {}
        for p in ps:
            out |= lab.of(p.val)
            for (kind, i), v in ((kk[:2], v) for kk, v in p.upd.items()):
                if kind == "P":
                    muts[i] = muts.get(i, frozenset()) | lab.of(v)
            self.effects(p.events, [c for c in p.conds], lab, n, w, k, ps, False)
        # outcomes that differ only by how a source turned out
        tainted = [(p, frozenset().union(*[lab.of(a) for a, _ in p.conds]) if p.conds else frozenset()) for p in ps]
        for i, (p, lp) in enumerate(tainted):
            for q, lq in tainted[i + 1:]:
                if not (lp or lq) or not compatible(p.conds, q.conds, lab):
                    continue
                if p.val is not q.val:
                    out |= lp | lq
                for kk in set(p.upd) | set(q.upd):
                    if kk[0] == "P" and p.upd.get(kk) is not q.upd.get(kk):
                        muts[kk[1]] = muts.get(kk[1], frozenset()) | lp | lq
        for s, rec, call in self.todo.get(k, ()):
            ctx.ob("source", rec["name"], True, call["span"], "", n)
        for m in self.call_names(k, n):
            if out:
                self.ret[m] = frozenset(out) | self.ret.get(m, frozenset())
            for i, l in muts.items():
                if l:
                    self.mut[(m, i)] = l | self.mut.get((m, i), frozenset())

    def call_names(self, k, n):
        """names by which calls of a function show up in terms: its own, and the trait's for a method of a trait"""
        tr = self.ctx.prog.fns[k].get("impl_trait")
        return [n] + ([tr.split("<")[0].split("::")[-1] + "::" + n.split("::")[-1]] if tr else [])

    def effects(self, events, conds, lab, n, w, k, siblings, in_loop):
        """what is written must not depend on a source, and neither whether it is written"""
        ctx = self.ctx
        for e in events:
            if isinstance(e, tuple):
                for q in e[1].paths:
                    if self.dead(q.conds, k):
                        continue
                    self.effects(q.events, list(conds) + list(q.conds), lab, n, w, k, e[1].paths, True)
                continue
            if not self.is_sink(e):
                continue
            l = frozenset().union(*[lab.of(a) for a in e.args]) if e.args else frozenset()
            ctx.ob("written", e.name, not l, e.span, "what %s writes depends on %s" % (e.name, ", ".join(sorted(l))), n)
            c = frozenset()
            for a, _ in conds:
                c |= lab.of(a)
            if c:
                same = [q for q in siblings if compatible(q.conds, conds, lab)]
                always = all(any(not isinstance(x, tuple) and x.name == e.name and x.args == e.args for x in q.events) for q in same)
                snapshot = (in_loop or self.repeated(k)) and c == {"clock"}
                ctx.ob("written", "whether " + e.name, always or snapshot, e.span, "whether %s writes depends on %s" % (e.name, ", ".join(sorted(c))), n)

    def repeated(self, k, above=()):
        """is every live call of the function made within a loop"""
        n = 0
        for b in self.cr.back.get(k, ()):
            if b not in self.live or b in above:
                continue
            if "{closure" in b:
                return False
            f = self.ctx.prog.fns[b]
            for i, blk in enumerate(f["blocks"]):
                t = blk["t"]
                if t[0] != "call" or not t[1]["f"] or t[1]["f"].get("k") != "fn":
                    continue
                if k in (t[1]["f"]["fn"]["res"], t[1]["f"]["fn"]["key"]):
                    n += 1
                    if not in_cycle(f, i) and not self.repeated(b, above + (k,)):
                        return False
        return n > 0

    def is_sink(self, e):
        f = self.ctx.fn(e.name)
        if f is not None:
            return f.d["key"] in self.sinks
        if e.argtys and "Std" in str(e.argtys[0]):
            return False
        return bool(re.search(SINKS, e.name) or re.search(SINKS, "std::" + e.name))

    # -------------------------------------------------------------- optional fields that are never set
    def dead(self, conds, k):
        for a, q in conds:
            t, want = a, q
            if t.op == "not":
                t, want = t.a[0], not q
            if t.op == "is" and t.a[1] == "Some" and want or t.op == "is" and t.a[1] == "None" and not want:
                x = t.a[0]
                if x.op == "field" and isinstance(x.a[1], str) and self.never_set(x.a[1]):
                    return True
        return False

    def never_set(self, f):
        """is the optional field of this name None in every value of live code"""
        if f in self.never:
            return self.never[f]
        owners = [a for a in self.ctx.prog.adts.values() for v in a["variants"] for g in v["fields"] if g[0] == f and g[1].startswith("std::option::Option<")]
        others = [a for a in self.ctx.prog.adts.values() for v in a["variants"] for g in v["fields"] if g[0] == f]
        if len(owners) != 1 or len(others) != 1:
            self.never[f] = False
            return False
        self.never[f] = True            # while looking: assume it (greatest fixpoint)
        adt = owners[0]["path"] if "path" in owners[0] else None
        ok = True
        for k in sorted(self.live):
            if not ok:
                break
            if self.makes(k, owners[0]) or any(kk == k for kk, _, _ in self.cr.field_writes(owner_name(owners[0]), {f})):
                ok = self.keeps_none(outer(self.cr, k), owners[0], f)
        self.never[f] = ok
        self.ctx.ob("unused option", f, True, None, "%s is %s" % (f, "never set" if ok else "set"), f)
        return ok

    def makes(self, k, adt):
        for b in self.ctx.prog.fns[k]["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("adt") == adt["path"]:
                    return True
        return False

    def keeps_none(self, k, adt, f):
        n = self.named.get(k)
        if n is None:
            return False
        opaque = tuple(sorted(m for kk, m in self.named.items() if kk != k and "{closure" not in kk))
        ps, _ = self.ctx.run(n, opaque)
        if not ps:
            return False
        for p in ps:
            if self.dead(p.conds, k):
                continue
            vals = [p.val] + list(p.upd.values()) + [a for e, _ in flat_events(p.events) for a in e.args]
            for v in vals:
                for x in walk(v):
                    if x.op == "agg" and x.a[0] == adt["path"]:
                        if not self.none(field(x, f), k):
                            return False
                    if x.op == "with":
                        for g, y in x.a[1]:
                            if g == f and not self.none(y, k):
                                return False
            for kk, v in p.upd.items():
                y = field(v, f)
                if y.op != "field" and not self.none(y, k):
                    return False
        return True

    def none(self, y, k):
        if y is NONE:
            return True
        if y.op == "field" and isinstance(y.a[1], str):
            return self.never_set(y.a[1])
        if y.op == "sym" and y.a[0] == "arg":
            return self.arg_none(k, y.a[1])
        return False

    def arg_none(self, k, i, above=()):
        """is the argument None at every live call"""
        n = 0
        if (k, i) in above:
            return True
        for b in sorted(self.cr.back.get(k, ())):
            if b not in self.live:
                continue
            o = outer(self.cr, b)
            m = self.named.get(o)
            if m is None:
                return False
            f = self.ctx.prog.fns[b]
            for rec, call in self.cr.sites[b]:
                if k in (rec["res"], rec["key"]):
                    n += 1
                    if not none_operand(f, call["args"][i], lambda j: "{closure" not in b and self.arg_none(b, j, above + ((k, i),))):
                        return False
        return n > 0


def in_cycle(f, i):
    """can block i be reached from itself"""
    f = Fn(f)
    seen, st = set(), list(f.succ(i))
    while st:
        b = st.pop()
        if b == i:
            return True
        if b not in seen:
            seen.add(b)
            st.extend(f.succ(b))
    return False


def owner_name(a):
    return a["path"].split("::")[-1]


def writes(call):
    return any("&mut" in str(t) and "closure" in str(t) for t in (call.get("argtys") or ())[1:])


def none_operand(f, o, param):
    """is an operand the value None (param: is the parameter of that number)"""
    if o[0] == "k":
        return "None" in str(o[1].get("v", ""))
    l, projs = o[1][0], o[1][1]
    if projs:
        return False
    defs = []
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[1][0] == l:
                defs.append(s[2])
        t = b["t"]
        if t[0] == "call" and t[1]["dest"][0] == l:
            return False
    if not defs:
        return 1 <= l <= f["argc"] and param(l - 1)
    for d in defs:
        if d[0] == "agg" and d[1].get("variant") == "None":
            continue
        if d[0] == "use" and none_operand(f, d[1], param):
            continue
        return False
    return True


def compatible(c1, c2, lab):
    """may both hold, as far as the conditions without a source go"""
    u = {(a, q) for a, q in c1 if not lab.of(a)}
    v = {(a, q) for a, q in c2 if not lab.of(a)}
    return not any((a, not q) in v for a, q in u)
