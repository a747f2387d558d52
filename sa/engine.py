"""Abstract interpretation of MIR over value numbers.

`Engine.run(key)` computes a summary of a function: the set of its (acyclic) paths, each
with branch conditions, ordered effects, the value returned and the final value of every
`&mut` argument.  Loops are summarised (one abstract iteration from a generalised header
state); counted loops are closed to sum / build / pointwise-update / fold terms.  Callees
in the crate and closures are inlined unless declared opaque."""
import re
from terms import *
import terms


class Panic(Exception):
    pass


class Blowup(Exception):
    pass


RETRY = raw("retry")


class Ev:
    """an effect on a path"""
    __slots__ = ("name", "args", "res", "fn", "span", "live", "clos", "argtys", "targs")

    def __init__(self, name, args, res, fn, span, live=None, clos=None, argtys=(), targs=()):
        self.name, self.args, self.res, self.fn, self.span, self.live, self.clos = name, args, res, fn, span, live, clos
        self.argtys = argtys
        self.targs = targs          # generic arguments of the function called

    def mapped(self, f):
        return Ev(self.name, tuple(f(x) for x in self.args), f(self.res) if isinstance(self.res, T) else self.res,
                  self.fn, self.span, self.live, self.clos, self.argtys, self.targs)

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(show(a) for a in self.args))


class LPath:
    __slots__ = ("kind", "conds", "events", "upd", "asserts", "tag", "state", "val", "exist")

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, showlits(self.conds), self.events, {k: show(v) for k, v in self.upd.items()})


class Loop:
    """summary of one loop: kind of iteration, phi leaves and per-iteration paths (open terms:
    `iota` is the iteration number, `phi` the values at the start of the iteration)"""
    def __init__(self):
        self.trips = []
        self.leaves = {}
        self.paths = []
        self.fn = None
        self.span = None
        self.iota = None
        self.ind = {}
        self.name = "loop"

    def __repr__(self):
        return "LOOP trips=%s leaves=%s {\n  %s\n}" % (
            [show(t) for t in self.trips],
            {show(l["phi"]): show(l["init"]) for l in self.leaves.values()},
            "\n  ".join(repr(p) for p in self.paths))


def showlits(ls):
    return "[" + " & ".join(("" if p else "!") + show(a) for a, p in ls) + "]"


class State:
    __slots__ = ("mem", "facts", "var", "lo", "hi", "conds", "asserts", "events", "depth", "mark", "evn")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.var = {}
        self.lo = {}
        self.hi = {}
        self.conds = []
        self.asserts = []
        self.events = []
        self.depth = ()
        self.mark = 0
        self.evn = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.var = dict(self.var)
        s.lo = dict(self.lo)
        s.hi = dict(self.hi)
        s.conds = list(self.conds)
        s.asserts = list(self.asserts)
        s.events = list(self.events)
        s.depth = self.depth
        s.mark = self.mark
        s.evn = dict(self.evn)
        return s

    # ---- facts
    def decide(self, t):
        if t.op == "bool":
            return t.a[0]
        a, p = lit(t)
        r = self._decide(a)
        return None if r is None else (r == p)

    def _decide(self, a):
        if a.op == "bool":
            return a.a[0]
        if a in self.facts:
            return self.facts[a]
        if a.op == "is":
            v = self.var.get(a.a[0])
            if v:
                if v[0] == "is":
                    return v[1] == a.a[1]
                if a.a[1] in v[1]:
                    return False
        if a.op == "pos":
            lo, hi, c, n = self.bounds(a.a[0])
            if lo is not None and lo + c >= 1:
                return True
            if hi is not None and hi + c < 1:
                return False
        if a.op == "eq0":
            lo, hi, c, n = self.bounds(a.a[0])
            if lo is not None and lo + c > 0:
                return False
            if hi is not None and hi + c < 0:
                return False
            if lo is not None and lo == hi and lo + c == 0:
                return True
        if a.op == "and":
            x, y = self.decide(a.a[0]), self.decide(a.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
        if a.op == "or":
            x, y = self.decide(a.a[0]), self.decide(a.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
        return None

    def bounds(self, x):
        """linear x = c + N: -> (lo(N), hi(N), c, N) where N's first coefficient is >0"""
        c, d = lin_parts(x)
        n = mk_lin(0, d)
        first = min(d.items(), key=lambda q: q[0].id)
        flip = first[1] < 0
        if flip:
            n = scale(n, -1)
            lo, hi = self.hi.get(n), self.lo.get(n)
            lo = None if lo is None else -lo
            hi = None if hi is None else -hi
        else:
            lo, hi = self.lo.get(n), self.hi.get(n)
        if all(k >= 0 and is_nonneg(t) for t, k in d.items()):
            lo = max(lo, 0) if lo is not None else 0
        if all(k <= 0 and is_nonneg(t) for t, k in d.items()):
            hi = min(hi, 0) if hi is not None else 0
        if lo is None and len(d) > 1:
            # sum of single-atom bounds
            tot = 0
            for t, k in d.items():
                b = self.lo.get(t) if k > 0 else self.hi.get(t)
                if b is None and k > 0 and is_nonneg(t):
                    b = 0
                if b is None:
                    tot = None
                    break
                tot += k * b
            lo = tot
        return lo, hi, c, n

    def learn(self, a, p):
        self.facts[a] = p
        if a.op == "is":
            cur = self.var.get(a.a[0])
            if p:
                self.var[a.a[0]] = ("is", a.a[1])
            elif not (cur and cur[0] == "is"):
                self.var[a.a[0]] = ("not", (cur[1] if cur else frozenset()) | {a.a[1]})
            tv = two_variant.get(a.a[1])
            if tv and not p:
                self.var[a.a[0]] = ("is", tv[0] if a.a[1] == tv[1] else tv[1])
        if a.op in ("pos", "eq0"):
            c, d = lin_parts(a.a[0])
            n = mk_lin(0, d)
            first = min(d.items(), key=lambda q: q[0].id)
            sgn = 1
            if first[1] < 0:
                n = scale(n, -1)
                sgn = -1
            def setlo(v):
                self.lo[n] = max(self.lo.get(n, v), v)
            def sethi(v):
                self.hi[n] = min(self.hi.get(n, v), v)
            if a.op == "pos":
                # p: sgn*n + c >= 1 ; not p: sgn*n + c <= 0
                if p:
                    setlo(1 - c) if sgn > 0 else sethi(c - 1)
                else:
                    sethi(-c) if sgn > 0 else setlo(c)
            elif p:
                v = -c * sgn
                setlo(v)
                sethi(v)
            else:
                v = -c * sgn
                lo0 = self.lo.get(n)
                if lo0 is None and is_nonneg(n):
                    lo0 = 0
                if lo0 == v:
                    setlo(v + 1)
                if self.hi.get(n) == v:
                    sethi(v - 1)
        if a.op == "and" and p:
            for x in a.a:
                q, r = lit(x)
                self.learn(q, r)
        if a.op == "or" and not p:
            for x in a.a:
                q, r = lit(x)
                self.learn(q, not r)

    def assume(self, t, branch=True):
        """assume boolean t; False when contradictory. branch: record as a path condition"""
        r = self.decide(t)
        if r is not None:
            return r
        a, p = lit(t)
        self.learn(a, p)
        if branch:
            self.conds.append((a, p))
        else:
            self.asserts.append((a, p))
        return True


# ------------------------------------------------------------------ tree paths
def tget(v, path):
    for p in path:
        if p[0] == ".":
            v = field(v, p[1])
        elif p[0] == "v":
            v = payload(v, p[1], p[2])
        else:
            v = v.a[p[1]]
    return v


def tset(v, path, x):
    if not path:
        return x
    p, rest = path[0], path[1:]
    if p[0] == ".":
        return set_field(v, p[1], tset(field(v, p[1]), rest, x))
    if p[0] == "v":
        return set_field(v, p[2], tset(payload(v, p[1], p[2]), rest, x))
    a = list(v.a)
    a[p[1]] = tset(a[p[1]], rest, x)
    return raw(v.op, *a)


def tdiff(v0, v1, path, leaves, out):
    if v0 is v1 or path in leaves:
        return
    if v1 is MOVED or v0 is MOVED:
        return
    if v0.op == "agg" and v1.op == "agg" and v0.a[:3] == v1.a[:3]:
        for f in v0.a[2]:
            tdiff(field(v0, f), field(v1, f), path + ((".", f),), leaves, out)
        return
    if (v0.op == "with" or v1.op == "with") and v0.op != "agg" and v1.op != "agg":
        b0 = v0.a[0] if v0.op == "with" else v0
        b1 = v1.a[0] if v1.op == "with" else v1
        if b0 is b1:
            fs = set()
            for v in (v0, v1):
                if v.op == "with":
                    fs |= {k for k, _ in v.a[1]}
            for f in sorted(fs):
                tdiff(field(v0, f), field(v1, f), path + ((".", f),), leaves, out)
            return
    if v0.op == v1.op and v0.op in ("it", "clos") and len(v0.a) == len(v1.a) and v0.a[0] == v1.a[0]:
        ok = all(isinstance(x, T) or x == y for x, y in zip(v0.a, v1.a))
        if ok:
            for i in range(1, len(v0.a)):
                if isinstance(v0.a[i], T) and isinstance(v1.a[i], T):
                    tdiff(v0.a[i], v1.a[i], path + (("c", i),), leaves, out)
            return
    out.append(path)


# ------------------------------------------------------------------ functions
GEN = re.compile(r"::<[^<>]*>")
IMPL = re.compile(r"<impl [^<>]*>::|<[^<>]*>")


def clean(path):
    p = path
    p = p.replace("->", "=>")
    while True:
        q = GEN.sub("", p)
        q = re.sub(r"::<impl [^<>]*>", "", q)
        if q == p:
            # innermost generic args of types
            q = re.sub(r"(?<=[A-Za-z0-9_])<[^<>]*>", "", p)
            if q == p:
                break
        p = q
    return p


PRIMS = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "f32", "f64", "char", "bool"}


class Fn:
    def __init__(self, d):
        self.d = d
        self.key = d["key"]
        self.name = d["name"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.derived = d["derived"]
        self.cpath = canon_path(d)
        self._loops = None

    def succ(self, b, unwind=False):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[1]["target"]] if t[1]["target"] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def analyse(self):
        if self._loops is not None:
            return
        n = len(self.blocks)
        succ = [self.succ(b) for b in range(n)]
        # blocks that can reach a return
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        live = set()
        st = [b for b in range(n) if self.blocks[b]["t"][0] == "return"]
        while st:
            b = st.pop()
            if b in live:
                continue
            live.add(b)
            st.extend(pred[b])
        self.live = live
        # reachable, rpo
        seen = set()
        order = []

        def dfs(r):
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(b)
                    stack.pop()
        dfs(0)
        rpo = list(reversed(order))
        num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        loops = {}
        for b in rpo:
            for s in succ[b]:
                # back edge if s dominates b
                x = b
                dom = False
                while True:
                    if x == s:
                        dom = True
                        break
                    if x == 0:
                        break
                    x = idom[x]
                if dom:
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        y = stk.pop()
                        if y in body or y not in num:
                            continue
                        body.add(y)
                        stk.extend(pred[y])
        self._loops = loops

    @property
    def loops(self):
        self.analyse()
        return self._loops


def short_ty(s):
    s = s or ""
    s = re.sub(r"'\w+ ?", "", s)
    s = clean(s).replace("<>", "")
    return s.split("::")[-1].strip("<>& ")


def canon_path(d):
    """module-independent stable name: Type::method, <Type as Trait>::method, or function name;
    closures: parent::{closure#n}"""
    k = d["key"]
    m = re.match(r"^(.*?)((?:::\{closure#\d+\})*)(#p\d+)?$", k)
    clos = (m.group(2) or "") + (m.group(3) or "")
    return k if clos else base_name(d)


def base_name(d):
    if d["self_ty"]:
        st = short_ty(d["self_ty"])
        if d["impl_trait"]:
            return "<%s as %s>::%s" % (st, d["impl_trait"].split("::")[-1].split("<")[0], d["name"])
        return "%s::%s" % (st, d["name"])
    return d["name"]


class Engine:
    MAXPATHS = 6000
    UNROLL = 16

    def __init__(self, prog, opaque=(), keep_drops=True, max_depth=24):
        self.prog = prog
        self.fns = {}
        for k, d in prog.fns.items():
            self.fns[k] = Fn(d)
        self.names = {}
        by = {}
        for f in self.fns.values():
            if f.d["kind"] in ("Fn", "AssocFn"):
                by.setdefault(f.cpath, []).append(f)
        for n, fs in by.items():
            # same name in several modules: those of the crate root, then all but the first, are qualified
            fs.sort(key=lambda f: (f.d["parent"].count("::") == 0, f.key))
            for i, f in enumerate(fs):
                if i:
                    m = f.d["parent"].split("::")
                    f.cpath = "%s::%s" % ("crate" if len(m) == 1 else "::".join(m[1:]), n)
                self.names.setdefault(f.cpath, f)
        self.opaque = set(opaque)     # canonical names of local functions not to inline
        self.uid = 0
        self.frames = []
        self.promo = {}
        self.fnrefs = {}
        self.steps = 0
        self.max_depth = max_depth
        self.frame_types = {}
        self.unknown = {}
        for a in prog.adts.values():
            if a["enum"] and len(a["variants"]) == 2:
                register_two_variant(a["variants"][0]["name"], a["variants"][1]["name"])
        import models
        self.models = models

    def fresh(self):
        self.uid += 1
        return self.uid

    # ------------------------------------------------------------ entry
    def run(self, name, args=None, key=None):
        """summary of a function: list of Path objects"""
        f = self.fns[key] if key else self.names[name]
        st = State()
        vals = []
        for i in range(f.argc):
            ty = f.locals[i + 1][0]
            v = args[i] if args and i < len(args) and args[i] is not None else sym("arg", i)
            if ty.startswith("&mut") and v.op != "mref":
                st.mem[("P", i)] = v
                v = raw("mref", ("P", i), ())
            vals.append(v)
        outs = self.call_fn(st, f, vals)
        res = []
        for s, v in outs:
            p = LPath()
            p.kind = "ret"
            p.conds = list(s.conds)
            p.events = s.events
            p.asserts = s.asserts
            p.val = self.deep(s, v)
            p.upd = {r: self.deep(s, x) for r, x in s.mem.items() if r[0] in ("P", "D")}
            p.state = s
            p.tag = None
            res.append(p)
        return res

    def deep(self, st, v):
        """resolve mutable references inside v to the values they point to"""
        return v

    # ------------------------------------------------------------ places
    def load(self, st, root, projs):
        v = st.mem.get(root)
        if v is None:
            v = raw("uninit", root[0])
        for p in projs:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        while v.op == "mref":
            v = self.load(st, v.a[0], v.a[1])
        k = p[0]
        if k == ".":
            if v.op == "clos":
                return v.a[1 + int(p[1])]
            return field(v, p[1])
        if k == "v":
            return payload(v, p[1], p[2])
        if k == "i":
            if v.op == "app" and v.a[0] == "jobj":
                return models.jget(v, p[1])
            return idx(v, p[1])
        if k == "jm":
            return v.a[1] if v.op == "app" and v.a[0] == "jobj" else payload(v, "Object")
        if k == "ss":
            lo = I(p[1])
            hi = sub(length(v), I(p[2])) if p[3] else I(p[2])
            return slice_(v, lo, hi)
        if k == "ent":
            return map_get_or(st, v, p[1], p[2])
        raise Exception("proj " + str(p))

    def save(self, st, root, projs, x):
        if root[0] == "H":
            projs = tuple(p for p in projs if not (p[0] == "." and p[1] == "value"))
        if not projs:
            st.mem[root] = x
            return
        base = st.mem.get(root)
        if base is None:
            base = raw("uninit", root[0])
        st.mem[root] = self.upd(st, base, projs, x)

    def upd(self, st, v, projs, x):
        if not projs:
            return x
        if v.op == "mref":
            self.save(st, v.a[0], v.a[1] + tuple(projs), x)
            return v
        p, rest = projs[0], projs[1:]
        k = p[0]
        if k == ".":
            if v.op == "clos":
                a = list(v.a)
                a[1 + int(p[1])] = self.upd(st, a[1 + int(p[1])], rest, x)
                return raw("clos", *a)
            return set_field(v, p[1], self.upd(st, field(v, p[1]), rest, x))
        if k == "v":
            return set_field(v, p[2], self.upd(st, payload(v, p[1], p[2]), rest, x))
        if k == "i":
            if v.op == "app" and v.a[0] == "jobj":
                return app("jobj", app("minsert", v.a[1], p[1], self.upd(st, models.jget(v, p[1]), rest, x)))
            return store(v, p[1], self.upd(st, idx(v, p[1]), rest, x))
        if k == "jm":
            return app("jobj", self.upd(st, self.proj(st, v, p), rest, x))
        if k == "ent":
            return app("minsert", v, p[1], self.upd(st, map_get_or(st, v, p[1], p[2]), rest, x))
        return app("havoc", v, x)

    def lval(self, fr, st, place):
        """MIR place -> (root, projs) after following mutable references, or ("val", term)"""
        root, projs = ("L", fr.id, place[0]), ()
        pend = None
        pr = place[1]
        val = None
        for e in pr:
            k = e[0]
            if k == "*":
                v = self.load(st, root, projs) if val is None else val
                if v.op == "mref":
                    root, projs = v.a[0], v.a[1]
                    val = None
                elif val is not None and ("D", val) in st.mem:
                    root, projs, val = ("D", val), (), None
            elif k == "as":
                pend = e[1]
            else:
                if k == ".":
                    p = ("v", pend, e[1]) if pend is not None else (".", e[1])
                    pend = None
                elif k == "i":
                    i = self.load(st, ("L", fr.id, e[1]), ())
                    p = ("i", i)
                elif k == "ci":
                    off, minlen, fromend = e[1], e[2], e[3]
                    if fromend:
                        cur = self.load(st, root, projs) if val is None else val
                        cur = self.deref(st, cur)
                        p = ("i", sub(length(cur), I(off)))
                    else:
                        p = ("i", I(off))
                elif k == "ss":
                    p = ("ss", e[1], e[2], e[3])
                else:
                    raise Exception("place " + str(e))
                # a mutable reference in the middle of a path is followed
                if val is None:
                    v = self.load(st, root, projs)
                    if v.op == "mref":
                        root, projs = v.a[0], v.a[1]
                    projs = projs + (p,)
                else:
                    val = self.proj(st, val, p)
        return root, projs, val

    def deref(self, st, v):
        while v.op == "mref":
            v = self.load(st, v.a[0], v.a[1])
        return v

    def rplace(self, fr, st, place):
        root, projs, val = self.lval(fr, st, place)
        return val if val is not None else self.load(st, root, projs)

    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.const(fr, st, o[1])
        place = o[1]
        v = self.rplace(fr, st, place)
        if o[0] == "m":
            if not any(e[0] == "*" for e in place[1]):
                root, projs, val = self.lval(fr, st, place)
                if val is None and root[0] == "L":
                    if not projs:
                        st.mem[root] = MOVED
                    elif fr.fn.locals[place[0]][2]:
                        self.save(st, root, projs, MOVED)
        return v

    def const(self, fr, st, c):
        k = c["k"]
        if k == "int":
            if c["ty"] == "bool":
                return B(c["v"] != 0)
            return I(c["v"])
        if k == "float":
            return raw("float", c["v"])
        if k == "str":
            return S(c["v"])
        if k == "bytes":
            return S(bytes(c["v"]))
        if k == "zst":
            if c["ty"] == "()":
                return UNIT
            m = re.match(r"^\{closure@", c["ty"])
            return raw("zst", c["ty"])
        if k == "fn":
            f = c["fn"]
            kk = f["res"] if f["rlocal"] else f["key"]
            self.fnrefs[(kk, tuple(f["args"]))] = c
            return raw("fnitem", kk, tuple(f["args"]))
        if k == "clos":
            return raw("clos", c["key"])
        if k == "promoted":
            return self.promoted(c["key"])
        return raw("const", str(c.get("v")), c["ty"])

    def promoted(self, key):
        if key in self.promo:
            return self.promo[key]
        f = self.fns.get(key)
        if f is None:
            return raw("const", key, "")
        outs = self.call_fn(State(), f, [])
        v = outs[0][1] if len(outs) == 1 else raw("const", key, "")
        self.promo[key] = v
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "reborrow"):
            root, projs, val = self.lval(fr, st, r[2])
            if r[1]:
                if val is not None:
                    root, projs = ("D", val), ()
                    st.mem.setdefault(root, val)
                v = self.load(st, root, projs)
                if v.op == "mref" and not projs and False:
                    return v
                return raw("mref", root, projs)
            v = val if val is not None else self.load(st, root, projs)
            return v
        if k == "cast":
            kind, o, src, dst = r[1], r[2], r[3], r[4]
            if "BoxDerefTransmute" in kind:
                p = o[1]
                q = [p[0], p[1][:-1], p[2]]
                return self.rplace(fr, st, q)
            v = self.operand(fr, st, o)
            if kind == "IntToInt":
                return int_cast(v, src, dst)
            if kind == "FloatToInt":
                return app("toint", v)
            if kind in ("FloatToFloat", "IntToFloat") and dst != "f64":
                return app("to_" + dst, v)
            if kind.startswith("Pointer") and "Expose" in kind or kind == "Transmute" and (dst in PRIMS or src in PRIMS) and dst != src:
                return app("bits_as_" + dst, v)
            return v
        if k == "bin":
            x, y = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return binop(r[1], self.deref(st, x), self.deref(st, y), r[4])
        if k == "un":
            x = self.deref(st, self.operand(fr, st, r[2]))
            if r[1] == "Not":
                ty = self.opty(fr, r[2])
                return neg(x) if ty == "bool" else app("bnot", x)
            if r[1] == "Neg":
                return app("fneg", x) if self.opty(fr, r[2]).startswith("f") else scale(x, -1)
            if r[1] == "PtrMetadata":
                return length(x)
            return app(r[1], x)
        if k == "discr":
            v = self.deref(st, self.rplace(fr, st, r[1]))
            return raw("discr", v, tuple(sorted(r[2].items())))
        if k == "agg":
            a = r[1]
            vals = [self.operand(fr, st, o) for o in r[2]]
            if a["k"] == "array":
                return raw("list", *vals)
            if a["k"] == "tuple":
                return UNIT if not vals else tup(*vals)
            if a["k"] == "adt":
                return self.models.mk_adt(a, vals)
            if a["k"] == "closure":
                return raw("clos", a["key"], *vals)
            return app("agg?", *vals)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            return raw("rep", v, I(int(r[2])) if r[2] is not None else sym("N"))
        return raw("const", str(r), "")

    def opty(self, fr, o):
        if o[0] == "k":
            return o[1]["ty"]
        return o[1][2]

    # ------------------------------------------------------------ functions
    def call_fn(self, st, f, args, clos_args=None):
        """inline f; -> list of (state, value)"""
        if len(self.frames) > self.max_depth:
            raise Blowup("depth")
        fr = Frame(f, self.fresh())
        for i, v in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = v
        if self.track_live:
            for i, l in enumerate(f.locals):
                self.frame_types[(fr.id, i)] = l[0]
        self.frames.append(fr)
        try:
            f.analyse()
            outs = self.exec(fr, 0, st, None)
        finally:
            self.frames.pop()
        res = []
        for kind, s, x in outs:
            assert kind == "ret", (kind, f.key)
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.id]:
                del s.mem[r]
            res.append((s, x))
        return self.merge(res)

    def merge(self, outs):
        """merge outcomes that differ only in one complementary last condition"""
        if len(outs) < 2:
            return outs
        changed = True
        while changed and len(outs) > 1:
            changed = False
            groups = {}
            for s, v in outs:
                key = (v, frozenset((r, x) for r, x in s.mem.items()), tuple(id(e) for e in s.events))
                groups.setdefault(key, []).append((s, v))
            new = []
            for g in groups.values():
                g = list(g)
                i = 0
                while i < len(g):
                    j = i + 1
                    while j < len(g):
                        m = merge_conds(g[i][0], g[j][0])
                        if m is not None:
                            g[i] = (m, g[i][1])
                            del g[j]
                            changed = True
                            j = i + 1
                        else:
                            j += 1
                    i += 1
                new.extend(g)
            outs = new
        return outs

    # ------------------------------------------------------------ execution
    def exec(self, fr, start, st0, loop):
        """run from block `start`; loop = (header, bodyset) when summarising one iteration"""
        out = []
        work = [(start, st0, True)]
        f = fr.fn
        while work:
            b, st, first = work.pop()
            while True:
                self.steps += 1
                if self.steps > 2000000 or len(out) > self.MAXPATHS:
                    raise Blowup(f.key)
                if loop is not None and not first:
                    if b == loop[0]:
                        out.append(("cont", st, None))
                        break
                    if b not in loop[1]:
                        out.append(("exit", st, b))
                        break
                if b in f.loops and not (first and loop is not None and b == loop[0]):
                    for kind, s, tgt in self.mir_loop(fr, b, st):
                        work.append((tgt, s, False))
                    break
                first = False
                blk = f.blocks[b]
                for s in blk["s"]:
                    k = s[0]
                    if k == "=":
                        v = self.rvalue(fr, st, s[2])
                        self.assign(fr, st, s[1], v)
                    elif k == "dead":
                        st.mem.pop(("L", fr.id, s[1]), None)
                    elif k == "setd":
                        pass
                t = blk["t"]
                k = t[0]
                if k == "goto":
                    b = t[1]
                    continue
                if k == "return":
                    v = st.mem.get(("L", fr.id, 0), UNIT)
                    out.append(("ret", st, v))
                    break
                if k == "assert":
                    b = t[4]
                    continue
                if k == "drop":
                    self.do_drop(fr, st, t)
                    b = t[2]
                    continue
                if k == "switch":
                    nxt = self.switch(fr, st, t)
                    if not nxt:
                        break
                    for s2, tb in nxt[1:]:
                        work.append((tb, s2, False))
                    st, b = nxt[0]
                    continue
                if k == "call":
                    c = t[1]
                    try:
                        res = self.call(fr, st, c)
                    except Panic:
                        res = []
                    if c["target"] is None or not res:
                        break
                    cont = []
                    for s2, v in res:
                        if v is RETRY:
                            out.append(("cont", s2, None))
                            continue
                        self.assign(fr, s2, c["dest"], v)
                        cont.append((c["target"], s2, False))
                    if not cont:
                        break
                    for w in cont[1:]:
                        work.append(w)
                    b, st, _ = cont[0]
                    continue
                break
        return out

    def assign(self, fr, st, place, v):
        root, projs, val = self.lval(fr, st, place)
        if val is not None:
            root, projs = ("D", val), ()
        self.save(st, root, projs, v)

    TRACK = ("TempFile", "TempPath", "TempDir", "Sender", "Receiver", "BufWriter", "JoinHandle", "MutexGuard")

    def do_drop(self, fr, st, t):
        place = t[1]
        ty = place[2]
        v = self.rplace(fr, st, place)
        if v is MOVED or v.op == "uninit":
            return
        st.events.append(Ev("drop", (v,), UNIT, fr.fn, t[4] if len(t) > 4 else None, argtys=(ty,)))
        if not any(e[0] == "*" for e in place[1]):
            root, projs, val = self.lval(fr, st, place)
            if val is None and root[0] == "L":
                self.save(st, root, projs, MOVED)

    def switch(self, fr, st, t):
        v = self.deref(st, self.operand(fr, st, t[1]))
        targets = t[2]
        other = t[3]
        live = fr.fn.live
        res = []
        if v.op == "discr":
            base, m = v.a[0], dict(v.a[1])
            done = set()
            alts = []
            for val, tb in targets:
                vn = m.get(val, val)
                done.add(vn)
                alts.append((is_variant(base, vn), tb))
            rest = [x for x in m.values() if x not in done]
            if rest:
                if len(rest) == 1:
                    alts.append((is_variant(base, rest[0]), other))
                else:
                    alts.append((("none", base, done), other))
        elif v.op == "bool" or t[4] == "bool":
            alts = []
            for val, tb in targets:
                alts.append((neg(v) if val == "0" else v, tb))
            alts.append((v if targets[0][0] == "0" else neg(v), other))
        else:
            alts = []
            vals = []
            ty = t[4]
            unsigned = ty.startswith("u") or ty == "char"
            for val, tb in targets:
                n = int(val)
                if ty.startswith("i"):
                    bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[ty]
                    if n >= 1 << (bits - 1):
                        n -= 1 << bits
                vals.append(n)
                c = eq_int(v, I(n))
                if n == 0 and unsigned:
                    c = neg(pos(v))
                alts.append((c, tb))
            alts.append((("ne", v, vals, unsigned), other))
        # edges to blocks that always panic are assertions on the remaining edges
        nlive = [a for a in alts if a[1] in live]
        isassert = len(nlive) < len(alts) and len({a[1] for a in nlive}) <= 1
        for c, tb in alts:
            if tb not in live:
                continue
            for s2 in self.assume_alt(st, c, branch=not isassert, n=len(nlive)):
                res.append((s2, tb))
        return res

    def assume_alt(self, st, c, branch=True, n=2):
        if isinstance(c, tuple):
            s = st.copy()
            if c[0] == "none":
                for vn in sorted(c[2]):
                    if not s.assume(neg(is_variant(c[1], vn)), branch):
                        return []
                return [s]
            for k in c[2]:
                x = eq_int(c[1], I(k))
                if k == 0 and c[3]:
                    x = neg(pos(c[1]))
                if not s.assume(neg(x), branch):
                    return []
            return [s]
        return [s for s, r in self.fork(st, c, branch) if r]

    def fork(self, st, t, branch=True):
        """-> [(state, bool)] for a boolean term, short-circuiting and/or"""
        if t.op == "not":
            return [(s, not r) for s, r in self.fork(st, t.a[0], branch)]
        d = st.decide(t)
        if d is not None:
            return [(st.copy(), d)]
        if t.op == "and":
            out = []
            for s, r in self.fork(st, t.a[0], branch):
                if r:
                    out += self.fork(s, t.a[1], branch)
                else:
                    out.append((s, False))
            return out
        if t.op == "or":
            out = []
            for s, r in self.fork(st, t.a[0], branch):
                if r:
                    out.append((s, True))
                else:
                    out += self.fork(s, t.a[1], branch)
            return out
        if t.op == "ite":
            out = []
            for s, r in self.fork(st, t.a[0], branch):
                out += self.fork(s, t.a[1] if r else t.a[2], branch)
            return out
        s1, s2 = st.copy(), st.copy()
        out = []
        if s1.assume(t, branch):
            out.append((s1, True))
        if s2.assume(neg(t), branch):
            out.append((s2, False))
        return out

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, header, st):
        body = fr.fn.loops[header]

        def run(s):
            s.mark = len(self.frames)
            fr.calls = 0
            fr.cur_header = header
            return self.exec(fr, header, s, (header, body))

        sp = fr.fn.blocks[header]["t"][-1]
        return self.loop(st, run, fr.fn, self.block_span(fr.fn, header))

    def block_span(self, f, b):
        for k in range(6):
            blk = f.blocks[b]
            if blk["t"][0] == "call":
                return blk["t"][1]["span"]
            if blk["t"][0] == "switch":
                return blk["t"][5]
            for s in blk["s"]:
                if s[0] == "=":
                    return s[3]
            ss = f.succ(b)
            if not ss:
                break
            b = ss[0]
        return f.d["span"]

    def loop(self, st0, body, fn, span):
        """generic loop summarisation; body(state)->[(kind, state, tag)]; returns exits [(kind, state, tag)]"""
        d = len(st0.depth)
        iota = raw("iota", d)
        leaves = {}     # (root, path) -> phi
        init = {}

        def header():
            s = st0.copy()
            s.depth = st0.depth + (iota,)
            s.conds = []
            s.asserts = []
            s.events = []
            s.evn = {}
            for (root, path), val in cur.items():
                s.mem[root] = tset(s.mem[root], path, val)
            return s

        cur = {}
        ind = {}
        shrunk, unshrunk = {}, set()
        sized = set()
        unsized = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Blowup("loop " + fn.key)
            h = header()
            hm = dict(h.mem)
            outs = body(h)
            conts = [s for k, s, t in outs if k == "cont"]
            newp = set()
            for s in conts:
                for root, v0 in hm.items():
                    v1 = s.mem.get(root)
                    if v1 is None:
                        continue
                    o = []
                    lf = {p for (r, p) in cur if r == root}
                    tdiff(v0, v1, (), lf, o)
                    for p in o:
                        newp.add((root, p))
            newp = {x for x in newp if x not in cur}
            if newp:
                for (root, p) in sorted(newp, key=str):
                    # remove finer leaves
                    for (r2, p2) in list(cur):
                        if r2 == root and p2[:len(p)] == p and p2 != p:
                            del cur[(r2, p2)]
                            ind.pop((r2, p2), None)
                    if any(r2 == root and p[:len(p2)] == p2 for (r2, p2) in cur):
                        continue
                    v0 = tget(st0.mem[root], p)
                    try:
                        v1 = next((tget(s.mem[root], p) for s in conts if s.mem.get(root) not in (None, MOVED)), None)
                    except Exception:
                        v1 = None
                    if v0.op != "it" and v1 is not None and v1.op == "it" and v1.a[0] == "seq" and v1.a[1] is v0:
                        # an unknown iterator advanced by hand: start it as one
                        st0 = st0.copy()
                        st0.mem[root] = tset(st0.mem[root], p, raw("it", "seq", v0, ZERO, length(v0)))
                        continue
                    cur[(root, p)] = raw("phi", d, root, p)
                    init[(root, p)] = v0
                continue
            # induction variables
            ch = False
            for key, ph in list(cur.items()):
                if key in ind or not conts:
                    continue
                root, p = key
                step = None
                ok = True
                for s in conts:
                    v1 = s.mem.get(root)
                    if v1 is None or v1 is MOVED:
                        ok = False
                        break
                    try:
                        x = tget(v1, p)
                    except Exception:
                        ok = False
                        break
                    if x.op in ("agg", "list", "push", "cat", "store", "bool", "bytes", "clos", "it"):
                        ok = False
                        break
                    dd = sub(x, ph)
                    if not isint(dd) or (step is not None and dd is not step):
                        ok = False
                        break
                    step = dd
                if ok and step is not None and step.a[0] != 0:
                    ind[key] = step
                    cur[key] = add(init[key], mul(step, iota))
                    ch = True
            if ch:
                continue
            # stop treating as induction what is not (updates changed)
            bad = False
            for key, step in list(ind.items()):
                root, p = key
                for s in conts:
                    x = tget(s.mem[root], p)
                    if sub(x, cur[key]) is not step:
                        bad = True
                        cur[key] = raw("phi", d, root, p)
                        del ind[key]
                        break
            if bad:
                # keep as plain phi from now on
                continue
            # sequences that lose one element at an end in every round
            for key, ph in list(cur.items()):
                if key in ind or key in unshrunk or not conts:
                    continue
                root, p = key
                vals = [s.mem.get(root) for s in conts]
                if any(v is None or v is MOVED for v in vals):
                    continue
                vals = [tget(v, p) for v in vals]
                if key in shrunk:
                    nxt = subst(cur[key], {iota: add(iota, ONE)})
                    if not all(v is nxt for v in vals):
                        del shrunk[key]
                        unshrunk.add(key)
                        cur[key] = raw("phi", d, root, p)
                        bad = True
                    continue
                for form, now in ((slice_(ph, ZERO, sub(length(ph), ONE)), lambda X: slice_(X, ZERO, sub(length(X), iota))), (slice_(ph, ONE, None), lambda X: slice_(X, iota, None))):
                    if all(v is form for v in vals) and ph.op == "phi":
                        shrunk[key] = True
                        cur[key] = now(init[key])
                        bad = True
                        break
            if bad:
                continue
            # leaves whose length never changes: conditions on it do not depend on the round
            for key, ph in list(cur.items()):
                if key in ind or key in unsized or key in shrunk or not conts:
                    continue
                root, p = key
                n = raw("len", ph)
                if key not in sized:
                    if not any(mentions_any(a, (n,)) for _, s, _ in outs for a, _ in s.conds):
                        continue
                vals = [s.mem.get(root) for s in conts]
                keeps = all(v is not None and v is not MOVED and length(tget(v, p)) is length(ph) for v in vals)
                if key in sized:
                    if not keeps:
                        sized.discard(key)
                        unsized.add(key)
                        cur[key] = raw("phi", d, root, p)
                        bad = True
                elif keeps:
                    k = length(init[key])
                    terms.LEN_OF[k.id] = k
                    sized.add(key)
                    cur[key] = raw("phi", d, root, p, k.id)
                    bad = True
            if bad:
                continue
            break
        L = Loop()
        L.fn, L.span, L.iota = fn, span, iota
        L.depth = d
        for key in cur:
            if key in ind or key in shrunk:
                continue
            L.leaves[key] = {"phi": cur[key], "init": init[key]}
        L.ind = {key: (init[key], ind[key]) for key in ind}
        phis = {l["phi"] for l in L.leaves.values()}

        def invariant(t):
            return not mentions_any(t, set(phis) | {iota})

        # trip counts
        trips = []
        triplits = {}
        exhaust = []
        rest = []
        for kind, s, tag in outs:
            if kind == "exit" and s.conds and not s.events:
                T_ = trip_of(s.conds[-1], iota, invariant)
                if T_ is not None and all(trip_of((a, not p), iota, invariant) is not None for a, p in s.conds[:-1]) \
                        and not any(x[0] != "L" and s.mem.get(x) is not hm.get(x) and not isit(s.mem.get(x)) for x in s.mem):
                    exhaust.append((s, tag, T_))
                    continue
            rest.append((kind, s, tag))
        for s, tag, T_ in exhaust:
            if T_ not in trips:
                trips.append(T_)
            a, p = s.conds[-1]
            triplits[(a, not p)] = T_
        L.trips = trips
        # constant trip count: unroll
        if trips and len(trips) == 1 and isint(trips[0]) and trips[0].a[0] <= self.UNROLL:
            return self.unroll(st0, body, trips[0].a[0])
        for kind, s, tag in outs:
            P = LPath()
            P.kind = kind
            P.tag = tag
            P.conds = [c for c in s.conds if c not in triplits]
            P.events = s.events
            P.asserts = s.asserts
            P.upd = {}
            P.val = None
            P.state = s
            for key in L.leaves:
                root, p = key
                v1 = s.mem.get(root)
                if v1 is None or v1 is MOVED:
                    v1 = MOVED
                else:
                    v1 = tget(v1, p)
                P.upd[key] = v1
            if any(s is e[0] for e in exhaust):
                P.kind = "done"
            L.paths.append(P)
        self.close(L)
        # exits
        res = []
        conts = [p for p in L.paths if p.kind == "cont"]
        exits = [p for p in L.paths if p.kind == "exit"]
        exist_atoms = []
        for P in exits:
            P.exist = L.exist_atom(P) if exhaust else None
        nexits = 0
        hasev = True
        for s, tag, T_ in exhaust:
            o = st0.copy()
            o.evn = dict(st0.evn)
            m = {}
            mem = {}
            for r, v in s.mem.items():
                mem[r] = v
            sm = dict(L.final)
            sm[iota] = L.trip
            memo = {}
            for r, v in mem.items():
                if st0.mem.get(r) is v:
                    continue
                mem[r] = subst(v, sm, memo) if needs(v) else v
            o.mem = mem
            o.events.append(("loop", L))
            bad = False
            for P in exits:
                if P.exist is not None and P.exist.op != "bool":
                    if not o.assume(neg(P.exist)):
                        bad = True
            if bad:
                continue
            res.append(("exit", o, tag))
        # identical exhaust exits (zip) are one exit
        if len(exhaust) > 1:
            keep = []
            for k, o, tag in res:
                if any(t2 == tag and all(o.mem.get(r) is o2.mem.get(r) or isit(o.mem.get(r)) for r in o2.mem) for _, o2, t2 in keep):
                    continue
                keep.append((k, o, tag))
            res = keep
        gone = self.remove_all(L, conts, exits) if not exhaust else None
        for P in exits:
            s = P.state
            o = st0.copy()
            sm = gone or L.brk(P)
            memo = {}
            mem = {}
            for r, v in s.mem.items():
                mem[r] = v if st0.mem.get(r) is v or not needs(v) else subst(v, sm, memo)
            o.mem = mem
            o.events.append(("loop", L))
            for e in P.events:
                o.events.append(e if isinstance(e, tuple) else e.mapped(lambda x: subst(x, sm, memo) if needs(x) else x))
            ok = True
            if P.exist is not None and P.exist.op != "bool":
                ok = o.assume(P.exist)
            for a, p in P.conds if not gone else ():
                t = subst(a, sm, memo)
                if not o.assume(t if p else neg(t), True):
                    ok = False
                    break
            for a, p in P.asserts:
                t = subst(a, sm, memo)
                if ok and not o.assume(t if p else neg(t), False):
                    ok = False
            if ok:
                res.append((P.kind, o, P.tag))
        if not res and not exits and not exhaust:
            pass
        return res

    def remove_all(self, L, conts, exits):
        """`while there is an element with P { remove the first such }`: what is left are the elements without P"""
        if len(conts) != 1 or len(exits) != 1 or len(L.leaves) != 1 or exits[0].events and any(not isinstance(e, tuple) for e in exits[0].events):
            return None
        (key, leaf), = L.leaves.items()
        ph, init = leaf["phi"], leaf["init"]
        C, X = conts[0], exits[0]
        if len(X.conds) != 1 or X.conds[0][1] or X.conds[0][0].op != "exists" or X.upd[key] is not ph or X.asserts:
            return None
        ex = X.conds[0][0]
        if (ex, True) not in C.conds or list(ex.a[1]) != [length(ph)] or len(ex.a[2]) != 1:
            return None
        (a, p), = ex.a[2]
        bv, el = raw("bv", ex.a[0]), sym("element")
        b = subst(a, {idx(ph, bv): el})
        if mentions_any(b, (ph, bv, L.iota)):
            return None
        at = [x for x in walk(C.upd[key]) if x.op == "brk" and x.a[1] == "pos" and list(x.a[0].a[1]) == list(ex.a[1]) and len(x.a[0].a) > 4
              and subst((raw("lits", *[y for y, q in x.a[0].a[4] if q == p])), {idx(ph, raw("bv", x.a[0].a[0])): el}) is raw("lits", b) and len(x.a[0].a[4]) == 1]
        if not at:
            return None
        i = at[0]
        if C.upd[key] is not cat(slice_(ph, ZERO, i), slice_(ph, add(i, ONE), None)):
            return None
        h = 1 + max(max_bv(init), max_bv(b))
        x = idx(init, raw("bv", h))
        case = (((subst(b, {el: x}), not p),), (x,))
        return {ph: mk_build("build", h, EMPTY, (length(init),), (case,)), L.iota: sym("removed")}

    def unroll(self, st0, body, n):
        states = [st0.copy()]
        res = []
        for k in range(n + 1):
            nxt = []
            for s in states:
                s = s.copy()
                s.mark = 0
                for kind, s2, tag in body(s):
                    if kind == "cont":
                        nxt.append(s2)
                    else:
                        res.append((kind, s2, tag))
            states = [s for s, _ in self.merge([(s, UNIT) for s in nxt])]
            if not states:
                break
        else:
            for s in states:
                raise Blowup("unroll")
        return res

    def close(self, L):
        """closed forms of the loop's leaves"""
        iota = L.iota
        conts = [p for p in L.paths if p.kind == "cont"]
        allterms = []
        for p in L.paths:
            for a, _ in p.conds:
                allterms.append(a)
            for v in p.upd.values():
                allterms.append(v)
        h = 1 + max([max_bv(t) for t in allterms + list(L.trips)] + [0])
        bv = raw("bv", h)
        L.h = h
        keys = sorted(L.leaves, key=lambda k: L.leaves[k]["phi"].id)
        phi = {k: L.leaves[k]["phi"] for k in keys}
        phiset = {v: k for k, v in phi.items()}
        trips = tuple(L.trips)
        if len(trips) == 1:
            L.trip = trips[0]
        elif trips:
            L.trip = app("min", *sorted(trips, key=lambda t: t.id))
        else:
            L.trip = raw("ntrips", h)
        final = {}

        def deps(k):
            """closure of leaves needed to define leaf k"""
            order = [k]
            i = 0
            while i < len(order):
                q = order[i]
                i += 1
                for y in direct(q):
                    if y not in order:
                        order.append(y)
            return order

        memo_dep = {}
        low = min([x.id for x in phiset], default=0)

        def leaves_in(t):
            for x in walk_above(t, low):
                if x in phiset:
                    yield phiset[x]

        def direct(q):
            """leaves that the value of leaf q after a round depends on"""
            if q not in memo_dep:
                out = []
                for cs, ups in simp_cases([(p.conds, (p.upd[q],)) for p in conts], (phi[q],)):
                    for t in [a for a, _ in cs] + list(ups):
                        for y in leaves_in(t):
                            if y not in out:
                                out.append(y)
                memo_dep[q] = out
            return memo_dep[q]

        def canon(order):
            m = {iota: bv}
            for i, q in enumerate(order):
                m[phi[q]] = raw("phi", h, i)
            return m

        def fold(order, extra=()):
            m = canon(order)
            memo = {}
            cases = []
            for cs, ups in simp_cases([(p.conds, tuple(p.upd[q] for q in order)) for p in conts], tuple(phi[q] for q in order)):
                c2 = frozenset((subst(a, m, memo), pl) for a, pl in cs)
                cases.append((c2, tuple(subst(u, m, memo) for u in ups)))
            return raw("fold", h, trips, tuple(L.leaves[q]["init"] for q in order), frozenset(cases),
                       frozenset((subst(a, m, memo), pl) for a, pl in extra))

        for k in keys:
            ph = phi[k]
            init = L.leaves[k]["init"]
            cases = simp_cases([(p.conds, (p.upd[k],)) for p in conts], (ph,))
            if not trips:
                final[ph] = None
                continue
            order = deps(k)
            m = canon([k])
            v = None
            if len(order) == 1:
                v = self.special(L, k, ph, init, cases, h, trips, bv)
            if v is None:
                v = raw("out", fold(order), 0)
            final[ph] = v
        L.final = {k: v for k, v in final.items() if v is not None}
        # break exits
        memo_brk = {}
        merged = merge_exits(L.paths)

        def brk(P):
            kk = id(P)
            if kk in memo_brk:
                return memo_brk[kk]
            order = []
            conds = merged.get(kk, P.conds)
            for a, _ in conds:
                for y in leaves_in(a):
                    if y not in order:
                        order.append(y)
            # values carried out
            i = 0
            def grow():
                i = 0
                while i < len(order):
                    q = order[i]
                    i += 1
                    for y in deps(q):
                        if y not in order:
                            order.append(y)
            grow()
            F = fold(order, conds)
            sm = {iota: raw("brk", F, "pos")}
            for i, q in enumerate(order):
                sm[phi[q]] = raw("brk", F, i)
            for q in keys:
                if q not in order:
                    o2 = deps(q)
                    full = order + [y for y in o2 if y not in order]
                    G = fold(full, conds)
                    sm[phi[q]] = raw("brk", G, full.index(q))
            memo_brk[kk] = sm
            return sm

        def exist_atom(P):
            order = []
            for a, _ in P.conds:
                for y in leaves_in(a):
                    if y not in order:
                        order.append(y)
            m = {iota: bv}
            if not order:
                cs = simp_conj(P.conds)
                lits = norm_lits(frozenset((subst(a, m), pl) for a, pl in cs))
                if lits is None:
                    return FALSE
                if not lits:
                    # leaves in the first iteration: exists iff there is one
                    return pos(trips[0]) if len(trips) == 1 else raw("exists", h, trips, lits)
                return mk_exists(h, trips, lits)
            i = 0
            while i < len(order):
                for y in deps(order[i]):
                    if y not in order:
                        order.append(y)
                i += 1
            return raw("exits", fold(order, P.conds))

        L.brk = brk
        L.exist_atom = exist_atom
        L.simp = lambda k: simp_cases([(p.conds, (p.upd[k],)) for p in conts], (phi[k],))

    def special(self, L, k, ph, init, cases, h, trips, bv):
        iota = L.iota
        m = {iota: bv}
        nophi = lambda t: not mentions_any(t, (ph,))
        if all(u[0] is ph for _, u in cases):
            return init
        if any(not nophi(a) for cs, u in cases for a, _ in cs):
            return self.pointwise(L, k, ph, init, cases, h, trips, bv)
        # builders
        def pushes(t):
            parts = []
            while t is not ph:
                if t.op == "push":
                    parts.append(raw("list", t.a[1]))
                    t = t.a[0]
                elif t.op == "cat" and t.a[0] is ph:
                    parts.extend(reversed(t.a[1:]))
                    t = ph
                elif t.op == "cat" and t.a[0].op == "push":
                    parts.extend(reversed(t.a[1:]))
                    t = t.a[0]
                else:
                    return None
            return list(reversed(parts))
        b = []
        ok = True
        for cs, (u,) in cases:
            ps = pushes(u)
            if ps is None or not all(nophi(x) for x in ps):
                ok = False
                break
            b.append((cs, ps))
        if ok:
            allpush = all(x.op == "list" for _, ps in b for x in ps)
            out = []
            for cs, ps in b:
                if not ps:
                    continue
                c2 = tuple(sorted(((subst(a, m), pl) for a, pl in cs), key=lambda q: (q[0].id, q[1])))
                if allpush:
                    els = tuple(subst(y, m) for x in ps for y in x.a)
                    out.append((c2, els))
                else:
                    out.append((c2, (subst(cat(*ps), m),)))
            out.sort(key=lambda q: tuple((a.id, p) for a, p in q[0]))
            return mk_build("build" if allpush else "catbuild", h, init, trips, tuple(out))
        # sums
        s = []
        ok = True
        for cs, (u,) in cases:
            if u.op in ("agg", "list", "bool", "bytes", "push", "cat", "store", "clos", "it", "mref"):
                ok = False
                break
            dlt = sub(u, ph)
            if not nophi(dlt):
                ok = False
                break
            if isint(dlt) and dlt.a[0] == 0:
                continue
            c2 = tuple(sorted(((subst(a, m), pl) for a, pl in cs), key=lambda q: (q[0].id, q[1])))
            s.append((c2, subst(dlt, m)))
        if ok:
            s.sort(key=lambda q: (tuple((a.id, p) for a, p in q[0]), q[1].id))
            if len(s) == 1 and not s[0][0] and isint(s[0][1]) and len(trips) == 1:
                return add(init, mul(s[0][1], trips[0]))
            return add(init, raw("sum", h, trips, tuple(s)))
        # flags
        if init.op == "bool" and all(u is ph or (u.op == "bool" and u.a[0] != init.a[0]) for _, (u,) in cases):
            sets = [frozenset((subst(a, m), pl) for a, pl in cs) for cs, (u,) in cases if u is not ph]
            e = FALSE
            for x in sets:
                y = mk_exists(h, trips, x)
                e = y if e is FALSE else raw("or", e, y)
            return neg(e) if init.a[0] else e
        return self.pointwise(L, k, ph, init, cases, h, trips, bv)

    def pointwise(self, L, k, ph, init, cases, h, trips, bv):
        iota = L.iota
        m = {iota: bv}
        nophi = lambda t: not mentions_any(t, (ph,))
        # pointwise updates, possibly of a part of the value that the loop does not choose
        lens = None
        for cs, (u,) in cases:
            if u is ph:
                continue
            l = self.lens_of(u, ph, iota, nophi)
            if l is None or (lens is not None and (l[0] != lens)):
                return None
            lens = l[0]
        if lens is not None and len(trips) >= 1:
            cont = lens_get(ph, lens)
            inner = lens_get(init, lens)
            self_el = raw("idx", cont, iota)
            marker = raw("bvself", h)
            el0 = idx(inner, bv)
            sel = []
            for cs, (u,) in cases:
                x = self_el if u is ph else self.lens_of(u, ph, iota, nophi)[1]
                y = subst(x, {self_el: marker})
                c2 = [(subst(a, {self_el: marker}), pl) for a, pl in cs]
                if not nophi(y) or not all(nophi(a) for a, _ in c2):
                    return None
                fin = lambda t: subst(subst(t, m), {marker: el0})
                sel.append((tuple(sorted(((fin(a), pl) for a, pl in c2), key=lambda q: (q[0].id, q[1]))), fin(y)))
            el = mk_sel(sel)
            n = length(inner)
            if any(t is n for t in trips):
                r = mk_mapupd(h, inner, trips, el)
            else:
                r = raw("mapupd_part", h, inner, trips, el)
            return lens_put(init, lens, r)
        return None

    def lens_of(self, u, ph, iota, nophi):
        """u = ph with one element, chosen by iota, of a fixed part replaced -> (path to the part, new element)"""
        steps = []
        cont = ph
        while True:
            if u.op == "store" and u.a[0] is cont:
                i = u.a[1]
                if i is iota:
                    return tuple(steps), u.a[2]
                if mentions_any(i, (iota,)) or not nophi(i):
                    return None
                steps.append(("at", i))
                cont = raw("idx", cont, i)
                u = u.a[2]
            elif u.op == "with" and u.a[0] is cont and len(u.a[1]) == 1:
                f, x = u.a[1][0]
                steps.append(("f", f))
                cont = field(cont, f)
                u = x
            else:
                return None


def lens_get(t, steps):
    for k, x in steps:
        t = idx(t, x) if k == "at" else field(t, x)
    return t


def lens_put(t, steps, v):
    if not steps:
        return v
    (k, x), rest = steps[0], steps[1:]
    if k == "at":
        return store(t, x, lens_put(idx(t, x), rest, v))
    return set_field(t, x, lens_put(field(t, x), rest, v))


def mk_mapupd(h, init, trips, el):
    if len(trips) == 1:
        bv = raw("bv", h)
        if el.op == "idx" and el.a[1] is bv and length(el.a[0]) is length(init):
            return el.a[0]
        return raw("mapupd", h, init, trips, el)
    return raw("mapupd_min", h, init, trips, el)


def mk_build(op, h, init, trips, cases):
    # v built by pushing every element of w, from empty: a copy of w
    if op == "build" and init is EMPTY and len(trips) == 1 and len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1:
        e = cases[0][1][0]
        if e.op == "idx" and e.a[1].op == "bv" and e.a[1].a[0] == h and length(e.a[0]) is trips[0]:
            return e.a[0]
    if op == "build" and init is EMPTY and len(trips) == 2 and sym("inf") in trips and len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and \
            not contains(cases[0][1][0], lambda z: z.op == "bv" and z.a[0] == h):
        trips = tuple(t for t in trips if t is not sym("inf"))
    # the same value n times
    if op == "build" and init is EMPTY and len(trips) == 1 and len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and \
            all(k > 0 for k in lin_parts(trips[0])[1].values()) and lin_parts(trips[0])[0] >= 0 and lin_parts(trips[0])[1] and \
            cases[0][1][0].op in ("int", "bool"):
        return raw("rep", cases[0][1][0], trips[0])
    if op == "build" and init is EMPTY and len(trips) == 1 and isint(trips[0]) and len(cases) == 1 and not cases[0][0] and trips[0].a[0] <= 16:
        out = []
        for i in range(max(0, trips[0].a[0])):
            for e in cases[0][1]:
                out.append(subst(e, {raw("bv", h): I(i)}))
        return raw("list", *out)
    if op == "build" and init.op != "list":
        return cat(init, mk_build("build", h, EMPTY, trips, cases)) if init is not EMPTY else raw(op, h, init, trips, cases)
    if op == "catbuild" and init is not EMPTY:
        return cat(init, raw(op, h, EMPTY, trips, cases))
    if op == "build" and init is not EMPTY:
        return cat(init, mk_build("build", h, EMPTY, trips, cases))
    return raw(op, h, init, trips, cases)


def mk_exists(h, trips, lits):
    if any(p and a.op == "bool" and not a.a[0] for a, p in lits):
        return FALSE
    lits = drop_witness(lits)
    return raw("exists", h, trips, lits)


def drop_witness(lits):
    """literals saying that the first element with a property has it, next to the literal that there is one"""
    for e, p in list(lits):
        if not p or e.op != "exists":
            continue
        for a, _ in list(lits):
            if a is e:
                continue
            for b in walk(a):
                if b.op == "brk" and b.a[1] == "pos" and b.a[0].op == "fold" and b.a[0].a[1] == e.a[1] and not b.a[0].a[2] and b.a[0].a[4] == e.a[2]:
                    m = {raw("bv", e.a[0]): b}
                    gone = norm_lits(frozenset((subst(x, m), q) for x, q in e.a[2]))
                    if gone and gone <= lits:
                        return drop_witness(lits - gone)
    return lits


def isit(v):
    return v is not None and (v.op == "it" or (v.op == "agg" and "Range" in v.a[0]))


_needs = {}


def needs(v):
    """does the term contain loop-bound open variables?"""
    r = _needs.get(v)
    if r is None:
        r = contains(v, lambda x: x.op in ("phi", "iota"))
        _needs[v] = r
    return r


def trip_of(litp, iota, invariant):
    """literal on which the loop is left -> trip count term, or None"""
    a, p = litp
    if a.op == "eq0" and p:
        c, d = lin_parts(a.a[0])
        k = d.pop(iota, 0)
        if k in (1, -1):
            t = scale(mk_lin(c, d), -k)
            return t if invariant(t) else None
        return None
    if a.op != "pos":
        return None
    y = a.a[0] if p else sub(ONE, a.a[0])    # leave iff y >= 1
    c, d = lin_parts(y)
    k = d.pop(iota, 0)
    if k < 1:
        return None
    t = sub(ONE, mk_lin(c, d))   # leave iff k*iota >= t
    if not invariant(t):
        return None
    if k == 1:
        return t
    return div(add(t, I(k - 1)), I(k))


def simp_conj(conds):
    return frozenset(conds)


def simp_cases(cases, ident):
    """merge cases with equal updates and complementary literals (to a fixpoint)"""
    groups = {}
    order = []
    for cs, u in cases:
        if u not in groups:
            groups[u] = []
            order.append(u)
        groups[u].append(frozenset(cs))
    if len(order) == 1:
        # all paths agree
        return [(frozenset(), order[0])]
    out = []
    for u in order:
        for s in qm(groups[u]):
            out.append((s, u))
    return out


def merge_exits(paths):
    """exits to the same place: their conditions without literals that do not matter for leaving there"""
    groups = {}
    for P in paths:
        if P.kind not in ("cont", "done"):
            groups.setdefault((P.kind, P.tag), []).append(P)
    out = {}
    for ps in groups.values():
        if len(ps) < 2:
            continue
        try:
            sets = qm([frozenset(P.conds) for P in ps])
        except TypeError:
            continue
        for P in ps:
            own = frozenset(P.conds)
            c = [x for x in sets if x <= own]
            if c and own not in c:
                best = min(c, key=lambda x: (len(x), sorted((a.id, p) for a, p in x)))
                out[id(P)] = tuple(sorted(best, key=lambda l: (l[0].id, l[1])))
    return out


def qm(sets):
    sets = set(sets)
    ch = True
    while ch:
        ch = False
        l = sorted(sets, key=lambda s: (len(s), sorted((a.id, p) for a, p in s)))
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                x, y = l[i], l[j]
                if x <= y:
                    sets.discard(y)
                    ch = True
                    break
                dx = x - y
                dy = y - x
                if len(dx) == 1 and len(dy) == 1:
                    (a, p), = dx
                    (b, q), = dy
                    if a is b and p != q:
                        sets.discard(x)
                        sets.discard(y)
                        sets.add(x & y)
                        ch = True
                        break
                elif len(dx) == 1 and len(dy) > 1:
                    # x = c&~a , y = c & a & ... : absorb (a already excluded)
                    (a, p), = dx
                    if (a, not p) in dy:
                        sets.discard(y)
                        sets.add(y - {(a, not p)})
                        ch = True
                        break
            if ch:
                break
    return sorted(sets, key=lambda s: (len(s), sorted((a.id, p) for a, p in s)))


def merge_conds(s1, s2):
    """two states identical but for conditions: merged state or None"""
    c1, c2 = s1.conds, s2.conds
    x, y = set(c1), set(c2)
    d1, d2 = x - y, y - x
    if not d1 and not d2:
        m = s1.copy()
    elif len(d1) == 1 and len(d2) == 1:
        (a, p), = d1
        (b, q), = d2
        if a is not b or p == q:
            return None
        m = s1.copy()
        m.conds = [c for c in c1 if c != (a, p)]
    elif not d1:
        m = s1.copy()          # s1 is weaker
    elif not d2:
        m = s2.copy()
    else:
        return None
    m.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
    m.var = {k: v for k, v in s1.var.items() if s2.var.get(k) == v}
    m.lo = {k: min(v, s2.lo[k]) for k, v in s1.lo.items() if k in s2.lo}
    m.hi = {k: max(v, s2.hi[k]) for k, v in s1.hi.items() if k in s2.hi}
    m.asserts = [a for a in s1.asserts if a in s2.asserts]
    return m


class Frame:
    def __init__(self, fn, id):
        self.fn = fn
        self.id = id


def map_get_or(st, m, k, d):
    if m.op == "app" and m.a[0] == "minsert" and m.a[2] is k:
        return m.a[3]
    if d is UNIT:
        return payload(models.mget(m, k), "Some")
    # defaults are part of the value read
    return app("mget_or", m, k, d)


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 7, "i16": 15, "i32": 31,
         "i64": 63, "isize": 63, "i128": 127, "char": 21, "bool": 1}


def int_cast(v, src, dst):
    if isint(v):
        n = v.a[0]
        w = WIDTH.get(dst)
        if dst in ("u8", "u16", "u32", "u64", "usize", "u128"):
            return I(n & ((1 << w) - 1))
        if -(1 << w) <= n < (1 << w):
            return v
    if v.op == "bool":
        return I(1 if v.a[0] else 0)
    ws, wd = WIDTH.get(src), WIDTH.get(dst)
    if ws is None or wd is None:
        return v
    if wd >= ws or wd >= 63:
        return v
    if v.op == "rem" and isint(v.a[1]) and v.a[1].a[0] <= (1 << wd):
        return v
    return app("trunc", dst, v) if False else raw("trunc", dst, v)


def binop(op, x, y, ty):
    fl = ty in ("f32", "f64")
    if op.endswith("Unchecked"):
        op = op[:-9]
    if op in ("Eq", "Ne"):
        if fl:
            r = raw("eq", *sorted((x, y), key=lambda z: z.id))
        elif x.op == "bool" or y.op == "bool":
            if x.op == "bool":
                x, y = y, x
            r = x if y.a[0] else neg(x)
        elif ty == "bool":
            r = eq(x, y)
        else:
            r = eq_int(x, y)
            z = y if isint(y) else x
            o = x if isint(y) else y
            if isint(z) and z.a[0] == 0 and (ty.startswith("u") or ty == "char") and not isint(o):
                r = neg(pos(o))
        return r if op == "Eq" else neg(r)
    if op in ("Lt", "Le", "Gt", "Ge"):
        if op in ("Gt", "Ge"):
            x, y = y, x
            op = {"Gt": "Lt", "Ge": "Le"}[op]
        if fl:
            return app("flt", x, y) if op == "Lt" else app("fle", x, y)
        if op == "Lt":
            return lt(x, y)
        return le(x, y)
    if fl:
        if op in ("Add", "Mul"):
            x, y = sorted((x, y), key=lambda z: z.id)
        return app("f" + op.lower(), x, y)
    if op == "Add":
        return add(x, y)
    if op == "Sub":
        return sub(x, y)
    if op == "Mul":
        return mul(x, y)
    if op == "Div":
        return div(x, y)
    if op == "Rem":
        return rem(x, y)
    if ty == "bool":
        if op == "BitAnd":
            return and_(x, y)
        if op == "BitOr":
            return or_(x, y)
        return raw("xor", x, y)
    if op == "BitAnd":
        return bitand(x, y)
    if op == "Shr":
        return shr(x, y)
    if op == "Shl":
        return shl(x, y)
    if op == "BitOr":
        x, y = sorted((x, y), key=lambda z: z.id)
        return raw("bor", x, y)
    if op == "BitXor":
        x, y = sorted((x, y), key=lambda z: z.id)
        return raw("bxor", x, y)
    if op == "Cmp":
        return app("cmp", x, y)
    return app(op, x, y)


def and_(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    return raw("and", x, y)


def or_(x, y):
    if x is TRUE or y is TRUE:
        return TRUE
    if x is FALSE:
        return y
    if y is FALSE:
        return x
    return raw("or", x, y)


import models  # noqa: E402  (the two modules refer to each other)
