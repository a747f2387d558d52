"""Meaning of library calls on value numbers, and dispatch of calls."""
import re
from terms import *
import terms
from engine import (Engine, Ev, Panic, Blowup, RETRY, clean, State, Loop, lit, and_, or_, needs, Frame, mk_exists)

VAL = "serde_json::Value"


def json_of(x):
    if x.op == "app" and x.a[0] in ("json",):
        return x
    if x.op == "agg" and x.a[0] == VAL:
        return x
    if x.op == "app" and x.a[0] in ("jobj", "jget"):
        return x
    # a list of values made from the elements of a list is the value made from the list
    if x.op == "build" and x.a[1] is EMPTY and len(x.a[2]) == 1 and len(x.a[3]) == 1 and not x.a[3][0][0]:
        els = x.a[3][0][1]
        if len(els) == 1 and els[0].op == "app" and els[0].a[0] == "json":
            e = els[0].a[1]
            if e.op == "idx" and e.a[1] is raw("bv", x.a[0]) and x.a[2][0] is length(e.a[0]) and \
                    not contains(e.a[0], lambda z: z is e.a[1]):
                return json_of(e.a[0])
    if x.op == "list" and len(x.a) and all(e.op == "app" and e.a[0] == "json" for e in x.a):
        return app("json", raw("list", *[e.a[1] for e in x.a]))
    return app("json", x)


def mk_adt(a, vals):
    adt, var = a["adt"], a["variant"]
    if adt == VAL and len(vals) == 1:
        if var == "Object":
            return app("jobj", vals[0])
        return json_of(vals[0])
    if adt.startswith("std::ops::Range"):
        return agg(adt.replace("core::", "std::"), var, tuple(a["fields"]), vals)
    if not a["enum"]:
        var = ""
    if not a["enum"] and adt in ("std::cmp::Reverse",):
        return agg(adt, "", ("0",), vals)
    return agg(adt, var, tuple(a["fields"]), vals)


# ------------------------------------------------------------------ iterators
def it(kind, *a):
    return raw("it", kind, *a)


def seq_it(v):
    return it("seq", v, ZERO, length(v))


def iter_size(x):
    """number of remaining elements, or None"""
    k = x.a[0]
    if k == "range":
        return sub(x.a[2], x.a[1]) if x.a[2] is not UNIT else None
    if k == "seq":
        return sub(x.a[3], x.a[2])
    if k == "mut":
        return sub(x.a[4], x.a[3])
    if k in ("map", "enum", "inspect"):
        return iter_size(x.a[1])
    if k == "rev":
        n = iter_size(x.a[1])
        return None if n is None else sub(n, x.a[2])
    if k == "zip":
        p, q = iter_size(x.a[1]), iter_size(x.a[2])
        if p is None or q is None:
            return p if q is None else q
        if p is q:
            return p
        return app("min", *sorted((p, q), key=lambda z: z.id))
    if k == "win":
        return sub(x.a[4], x.a[3])
    if k == "take":
        n = iter_size(x.a[1])
        if n is x.a[2]:
            return n
        return x.a[2] if n is None else None
    if k == "chain":
        p, q = iter_size(x.a[1]), iter_size(x.a[2])
        return None if p is None or q is None else add(p, q)
    return None


def iter_at(eng, st, x, j):
    """element j of the remaining elements -> [(state, value)]"""
    k = x.a[0]
    if k == "range":
        return [(st, add(x.a[1], j))]
    if k == "seq":
        return [(st, idx(x.a[1], add(x.a[2], j)))]
    if k == "mut":
        return [(st, raw("mref", x.a[1], x.a[2] + (("i", add(x.a[3], j)),)))]
    if k == "map":
        out = []
        for s, v in iter_at(eng, st, x.a[1], j):
            out += eng.apply(s, x.a[2], [v])
        return out
    if k == "enum":
        return [(s, tup(add(x.a[2], j), v)) for s, v in iter_at(eng, st, x.a[1], j)]
    if k == "zip":
        out = []
        for s, v in iter_at(eng, st, x.a[1], j):
            for s2, w in iter_at(eng, s, x.a[2], j):
                out.append((s2, tup(v, w)))
        return out
    if k == "rev":
        n = iter_size(x.a[1])
        if n is not None:
            return iter_at(eng, st, x.a[1], sub(sub(sub(n, ONE), x.a[2]), j))
    if k == "win":
        return [(st, slice_(x.a[1], add(x.a[3], j), add(add(x.a[3], j), x.a[2])))]
    return [(st, app("iterat", x, j))]


def iter_next(eng, st, x):
    """-> [(state, iterator after, NONE | Some(v) | RETRY)]"""
    k = x.a[0]
    if k == "range":
        cur, end = x.a[1], x.a[2]
        if end is UNIT:
            return [(st, it("range", add(cur, ONE), end), Some(cur))]
        out = []
        for s, r in eng.fork(st, lt(cur, end)):
            out.append((s, it("range", add(cur, ONE), end), Some(cur)) if r else (s, x, NONE))
        return out
    if k == "seq":
        v, cur, end = x.a[1:]
        out = []
        for s, r in eng.fork(st, lt(cur, end)):
            out.append((s, it("seq", v, add(cur, ONE), end), Some(idx(v, cur))) if r else (s, x, NONE))
        return out
    if k == "mut":
        root, projs, cur, end = x.a[1:]
        out = []
        for s, r in eng.fork(st, lt(cur, end)):
            out.append((s, it("mut", root, projs, add(cur, ONE), end),
                        Some(raw("mref", root, projs + (("i", cur),)))) if r else (s, x, NONE))
        return out
    if k == "win":
        v, n, cur, end = x.a[1:]
        out = []
        for s, r in eng.fork(st, lt(cur, end)):
            out.append((s, it("win", v, n, add(cur, ONE), end), Some(slice_(v, cur, add(cur, n)))) if r else (s, x, NONE))
        return out
    if k == "map":
        out = []
        for s, i2, r in iter_next(eng, st, x.a[1]):
            y = it("map", i2, x.a[2])
            if r is NONE or r is RETRY:
                out.append((s, y, r))
            else:
                for s2, v in eng.apply(s, x.a[2], [payload(r, "Some")]):
                    out.append((s2, y, Some(v)))
        return out
    if k == "inspect":
        out = []
        for s, i2, r in iter_next(eng, st, x.a[1]):
            y = it("inspect", i2, x.a[2])
            if r is NONE or r is RETRY:
                out.append((s, y, r))
            else:
                for s2, v in eng.apply(s, x.a[2], [payload(r, "Some")]):
                    out.append((s2, y, r))
        return out
    if k in ("filter", "fmap"):
        out = []
        for s, i2, r in iter_next(eng, st, x.a[1]):
            y = it(k, i2, x.a[2])
            if r is NONE or r is RETRY:
                out.append((s, y, r))
                continue
            for s2, v in eng.apply(s, x.a[2], [payload(r, "Some")]):
                if k == "filter":
                    for s3, b in eng.fork(s2, v):
                        out.append((s3, y, r if b else RETRY))
                else:
                    for s3, b in eng.fork(s2, is_variant(v, "Some")):
                        out.append((s3, y, Some(payload(v, "Some")) if b else RETRY))
        return out
    if k == "takewhile":
        out = []
        for s, i2, r in iter_next(eng, st, x.a[1]):
            y = it(k, i2, x.a[2])
            if r is NONE or r is RETRY:
                out.append((s, y, r))
                continue
            for s2, v in eng.apply(s, x.a[2], [payload(r, "Some")]):
                for s3, b in eng.fork(s2, v):
                    out.append((s3, y, r if b else NONE))
        return out
    if k == "enum":
        out = []
        for s, i2, r in iter_next(eng, st, x.a[1]):
            if r is NONE or r is RETRY:
                out.append((s, it("enum", i2, x.a[2]), r))
            else:
                out.append((s, it("enum", i2, add(x.a[2], ONE)), Some(tup(x.a[2], payload(r, "Some")))))
        return out
    if k == "zip":
        out = []
        for s, i2, r in iter_next(eng, st, x.a[1]):
            if r is NONE or r is RETRY:
                out.append((s, it("zip", i2, x.a[2]), r))
                continue
            for s2, j2, r2 in iter_next(eng, s, x.a[2]):
                if r2 is RETRY:
                    out.append((s2, it("zip", i2, app("unk", j2)), NONE))
                elif r2 is NONE:
                    out.append((s2, it("zip", i2, j2), NONE))
                else:
                    out.append((s2, it("zip", i2, j2), Some(tup(payload(r, "Some"), payload(r2, "Some")))))
        return out
    if k == "rev":
        n = iter_size(x.a[1])
        if n is not None:
            out = []
            for s, r in eng.fork(st, lt(x.a[2], n)):
                if not r:
                    out.append((s, x, NONE))
                else:
                    for s2, v in iter_at(eng, s, x.a[1], sub(sub(n, ONE), x.a[2])):
                        out.append((s2, it("rev", x.a[1], add(x.a[2], ONE)), Some(v)))
            return out
        # reversed filter / map over reversible source: push the reversal inside
        inner = x.a[1]
        if inner.a[0] in ("map", "filter", "fmap", "inspect"):
            return iter_next(eng, st, it(inner.a[0], it("rev", inner.a[1], x.a[2]), inner.a[2]))
    if k == "take":
        out = []
        for s, r in eng.fork(st, pos(x.a[2])):
            if not r:
                out.append((s, x, NONE))
                continue
            for s2, i2, r2 in iter_next(eng, s, x.a[1]):
                if r2 is NONE or r2 is RETRY:
                    out.append((s2, it("take", i2, x.a[2]), r2))
                else:
                    out.append((s2, it("take", i2, sub(x.a[2], ONE)), r2))
        return out
    if k == "chain":
        out = []
        for s, i2, r in iter_next(eng, st, x.a[1]):
            if r is NONE:
                for s2, j2, r2 in iter_next(eng, s, x.a[2]):
                    out.append((s2, it("chain", i2, j2), r2))
            else:
                out.append((s, it("chain", i2, x.a[2]), r))
        return out
    if k == "opq":
        # unknown iterator: elements by position
        t, cur = x.a[1:]
        out = []
        for s, r in eng.fork(st, lt(cur, raw("len", t))):
            out.append((s, it("opq", t, add(cur, ONE)), Some(idx(t, cur))) if r else (s, x, NONE))
        return out
    raise Blowup("iterator " + k)


def to_iter(eng, st, v, ty=""):
    """IntoIterator::into_iter on value v of type ty"""
    t = v
    if t.op == "mslice":
        p = t.a[0]
        return it("mut", p.a[0], p.a[1], t.a[1], t.a[2])
    if t.op == "mref":
        tgt = eng.load(st, t.a[0], t.a[1])
        if tgt.op == "it":
            return it("byref", t)
        base = re.sub(r"^&(mut )?('\w+ )?(mut )?", "", ty)
        if ty.startswith("&mut") and not re.match(r"^(std::vec::Vec|\[|std::collections::VecDeque)", base):
            if is_iter_type(base):
                return it("byref", t)
        return it("mut", t.a[0], t.a[1], ZERO, length(eng.deref(st, t)))
    if t.op == "it":
        return t
    if t.op == "agg" and "Range" in t.a[0]:
        return range_it(t)
    base = ty.lstrip("&")
    if "HashMap" in base or "HashSet" in base:
        if is_iter_type(base):
            return it("seq", t, ZERO, length(t))
        return seq_it(app("hashiter", t))
    if base.startswith("std::option::Option"):
        if t.op == "agg":
            return seq_it(raw("list", payload(t, "Some")) if t.a[1] == "Some" else EMPTY)
        return seq_it(app("optseq", t))
    return seq_it(t)


def to_iters(eng, st, v, ty=""):
    """to_iter with an optional value split into its two cases: [(state, iterator)]"""
    x = to_iter(eng, st, v, ty)
    if x.op == "it" and x.a[0] == "seq" and x.a[1].op == "app" and x.a[1].a[0] == "optseq" and x.a[2] is ZERO:
        t = x.a[1].a[1]
        return [(s, seq_it(raw("list", payload(t, "Some")) if r else EMPTY)) for s, r in eng.fork(st, is_variant(t, "Some"))]
    return [(st, x)]


def is_iter_type(b):
    return "::iter::" in b or "Iter<" in b or "Chars" in b or "Lines" in b or b.startswith("std::slice::")


def range_it(t):
    f = t.a[2]
    nm = t.a[0].split("::")[-1]
    if nm.startswith("RangeInclusive"):
        return it("range", field(t, "start"), add(field(t, "end"), ONE))
    if nm.startswith("RangeFrom"):
        return it("range", field(t, "start"), UNIT)
    return it("range", field(t, "start"), field(t, "end"))


def range_bounds(t):
    nm = t.a[0].split("::")[-1] if t.op == "agg" else ""
    if nm.startswith("RangeInclusive"):
        return field(t, "start"), add(field(t, "end"), ONE)
    if nm.startswith("RangeFull"):
        return ZERO, None
    if nm.startswith("RangeFrom"):
        return field(t, "start"), None
    if nm.startswith("RangeToInclusive"):
        return ZERO, add(field(t, "end"), ONE)
    if nm.startswith("RangeTo"):
        return ZERO, field(t, "end")
    if nm.startswith("Range"):
        return field(t, "start"), field(t, "end")
    return None


# ------------------------------------------------------------------ apply closures
def apply(eng, st, f, args):
    """call a closure / function value -> [(state, value)]"""
    g = f
    if g.op == "mref":
        g = eng.deref(st, g)
    if g.op == "clos":
        fn = eng.fns[g.a[0]]
        selfty = fn.locals[1][0]
        tmp = None
        if selfty.startswith("&mut"):
            if f.op == "mref":
                env = f
            else:
                tmp = ("H", eng.fresh())
                st.mem[tmp] = g
                env = raw("mref", tmp, ())
        else:
            env = g
        a = [env] + list(args)
        if len(a) != fn.argc:
            raise Blowup("closure arity " + fn.key)
        outs = eng.call_fn(st, fn, a)
        if tmp:
            for s, v in outs:
                s.mem.pop(tmp, None)
        return outs
    if g.op == "fnitem":
        c = None
        for (k, a), c0 in eng.fnrefs.items():
            if k == g.a[0] and a == g.a[1]:
                c = c0
        fr = c["fn"]
        path = clean(fr["path"])
        # enum / struct constructors
        last = path.split("::")[-1]
        if last and last[0].isupper():
            adt = "::".join(path.split("::")[:-1])
            if last in ("Some", "Ok", "Err"):
                return [(st, {"Some": Some, "Ok": Ok, "Err": Err}[last](args[0]))]
            if adt in eng.prog.adts:
                v = [x for x in eng.prog.adts[adt]["variants"] if x["name"] == last]
                if v:
                    return [(st, agg(adt, last, tuple(x[0] for x in v[0]["fields"]), args))]
            if path in eng.prog.adts:
                v = eng.prog.adts[path]["variants"][0]
                return [(st, agg(path, "", tuple(x[0] for x in v["fields"]), args))]
        call = {"f": c, "args": [], "argtys": [""] * len(args), "dest": None, "target": 0, "span": None, "dyn": None}
        return dispatch(eng, eng.frames[-1] if eng.frames else None, st, call, list(args))
    return [(st, app("apply", g, *[eng.deref(st, a) for a in args]))]


# ------------------------------------------------------------------ consumers
def consume(eng, st, itv, accs, step):
    """loop over iterator itv.  accs: list of initial values kept in memory; step(st, elem, roots)
    -> [(state, kind, tag)]; returns [(state, tag, acc values)] (tag None: exhausted)."""
    root = ("H", eng.fresh())
    st = st.copy()
    st.mem[root] = itv
    roots = []
    for a in accs:
        r = ("H", eng.fresh())
        st.mem[r] = a
        roots.append(r)

    def body(s):
        out = []
        for s2, i2, r in next_on(eng, s, root, ()):
            if r is NONE:
                out.append(("exit", s2, None))
            elif r is RETRY:
                out.append(("cont", s2, None))
            else:
                for s3, kind, tag in step(s2, payload(r, "Some"), roots):
                    out.append((kind, s3, tag))
        return out

    fn = eng.frames[-1].fn if eng.frames else next(iter(eng.fns.values()))
    res = []
    for kind, s, tag in eng.loop(st, body, fn, eng.cur_span):
        vals = [s.mem.get(r) for r in roots]
        for r in roots + [root]:
            s.mem.pop(r, None)
        res.append((s, tag, vals))
    return res


def next_on(eng, st, root, projs):
    x = eng.load(st, root, projs)
    if x.op == "mref":
        return next_on(eng, st, x.a[0], x.a[1])
    if x.op == "agg" and "Range" in x.a[0]:
        x = range_it(x)
    if x.op != "it":
        x = seq_it(x)
    if x.a[0] == "byref":
        return next_on(eng, st, x.a[1].a[0], x.a[1].a[1])
    out = []
    for s, i2, r in iter_next(eng, st, resolve_byref(eng, st, x)):
        eng.save(s, root, projs, i2)
        out.append((s, i2, r))
    return out


def resolve_byref(eng, st, x):
    return x


# ------------------------------------------------------------------ dispatch
IDENT = set("""
clone cloned copied to_vec to_owned as_slice as_ref as_bytes as_str as_deref as_deref_mut borrow borrow_mut
into_boxed_slice into_vec as_path into_bytes into_string as_mut_slice deref deref_mut as_mut_str
into_owned by_ref as_os_str to_path_buf into_boxed_str leak into_boxed_path as_mut iter_copied
""".split())

EFFECT_PREFIX = ("std::fs::", "std::sync::mpsc::", "std::thread::", "rand::", "tempfile::", "std::time::Instant::now",
                 "std::time::SystemTime::now", "std::io::", "std::env::", "std::process::", "std::sync::Mutex::lock",
                 "std::sync::RwLock", "std::sync::atomic", "std::net", "std::os")


def callee(eng, c):
    """(kind, name, fnref): kind 'local' (key) or 'ext'"""
    f = c["f"]
    if f is None:
        return "dyn", None, None
    if f["k"] != "fn":
        return "dyn", None, None
    fn = f["fn"]
    if fn["rlocal"] and fn["res"] in eng.fns and not (fn["trait"] and clean(fn["trait"]) in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce")):
        return "local", fn["res"], fn
    if fn["local"] and fn["key"] in eng.fns and fn["trait"] is None:
        return "local", fn["key"], fn
    if fn["trait"]:
        return "trait", clean(fn["trait"]).split("::")[-1] + "::" + fn["name"], fn
    p = clean(fn["path"]).replace("core::", "std::").replace("alloc::", "std::")
    return "ext", p, fn


def call(eng, fr, st, c):
    eng.cur_span = c["span"]
    args = [eng.operand(fr, st, a) for a in c["args"]]
    return dispatch(eng, fr, st, c, args)


def dispatch(eng, fr, st, c, args):
    kind, name, fn = callee(eng, c)
    if kind == "dyn":
        f = eng.operand(fr, st, c["dyn"]) if c["dyn"] else UNIT
        return apply(eng, st, f, args)
    if kind == "local":
        f = eng.fns[name]
        tr = f.d["impl_trait"]
        if f.derived and tr:
            # derived implementations mean what the trait says
            tn = clean(tr).split("::")[-1]
            return trait_call(eng, fr, st, c, tn + "::" + f.name, fn, args)
        if tr and clean(tr).split("::")[-1] in ("Display", "Debug", "PartialOrd", "Hash", "Serialize") :
            return trait_call(eng, fr, st, c, clean(tr).split("::")[-1] + "::" + f.name, fn, args)
        if tr and clean(tr).split("::")[-1] == "Ord" and not eng.inline_ord:
            return trait_call(eng, fr, st, c, "Ord::" + f.name, fn, args)
        return local_call(eng, fr, st, c, f, args)
    if kind == "trait":
        # default method bodies of local traits
        if fn["local"] and fn["key"] in eng.fns and not fn["res"]:
            pass
        return trait_call(eng, fr, st, c, name, fn, args)
    return ext_call(eng, fr, st, c, name, fn, args)


def local_call(eng, fr, st, c, f, args):
    if f.cpath in eng.opaque or f.key in eng.opaque or any(x.fn is f for x in eng.frames):
        return opaque_local(eng, fr, st, c, f.cpath, args)
    if not returns(f):
        raise Panic()
    try:
        return eng.call_fn(st, f, args)
    except Blowup:
        if eng.strict:
            raise
        return opaque_local(eng, fr, st, c, f.cpath, args)


def returns(f):
    f.analyse()
    return 0 in f.live


def opaque_local(eng, fr, st, c, name, args):
    vals = tuple(eng.deref(st, a) for a in args)
    vals = tuple(freeze(eng, st, v) for v in vals)
    k = st.evn.get((name, vals), 0)
    st.evn[(name, vals)] = k + 1
    if eng.pure_opaque(name):
        res = raw("call", name, *vals)
    else:
        res = raw("call", name, *vals) if k == 0 else raw("call", name, *(vals + (I(k),)))
    fn = ((c.get("f") or {}).get("fn") or {}) if isinstance(c.get("f"), dict) else {}
    st.events.append(Ev(name, vals, res, fr.fn if fr else None, c["span"], live=eng.live(st), argtys=tuple(c.get("argtys") or ()), targs=tuple(fn.get("args") or ())))
    for i, a in enumerate(args):
        if a.op == "mref":
            eng.save(st, a.a[0], a.a[1], raw("mutout", name, i, *vals))
    return [(st, res)]


def freeze(eng, st, v):
    """replace mutable references inside v by what they point to now"""
    if v.op == "mref":
        return freeze(eng, st, eng.deref(st, v))
    return v


def effect(eng, fr, st, c, name, args, res=None, state_arg=None, extra=None, rargs=None):
    """record an effect; the result is a fresh value"""
    vals = tuple(freeze(eng, st, eng.deref(st, a)) for a in args)
    key = (name, vals)
    k = st.evn.get(key, 0)
    st.evn[key] = k + 1
    if res is None:
        res = raw("ev", name, vals, k, st.depth)
    clos = None
    st.events.append(Ev(name, vals, res, fr.fn if fr else None, c["span"], live=eng.live(st), clos=extra,
                        argtys=tuple(c.get("argtys") or ())))
    return res


def opaque_ext(eng, fr, st, c, name, args):
    """unknown library function: a pure function of its arguments; &mut arguments become unknown functions too"""
    eng.unknown[name] = eng.unknown.get(name, 0) + 1
    vals = tuple(eng.deref(st, a) for a in args)
    res = app(name, *vals)
    for i, a in enumerate(args):
        if a.op == "mref":
            eng.save(st, a.a[0], a.a[1], app(name + "!%d" % i, *vals))
    return [(st, res)]


def strip_ty(t):
    t = re.sub(r"'\w+ ?", "", t or "")
    while t.startswith("&"):
        t = t[1:]
        if t.startswith("mut "):
            t = t[4:]
    return t


def display(x, ty):
    """text produced by Display for value x of type ty"""
    b = strip_ty(ty)
    if b in ("str", "std::string::String") or b.startswith("std::borrow::Cow<str") or b.startswith("std::boxed::Box<str"):
        return x
    if b == "char":
        return char_str(x)
    if b.startswith("std::char::To"):
        return x
    return app("display", x)


def char_str(c):
    if isint(c):
        return S(chr(c.a[0]))
    return app("char", c)


def unwrap(eng, st, v, good):
    t = is_variant(v, good)
    if not st.assume(t, branch=False):
        return []
    return [(st, payload(v, good))]


def good_of(ty):
    return "Ok" if "result::Result" in strip_ty(ty).split("<")[0] else "Some"


def parse_fmt(tmpl, args):
    """decode the compiled format template"""
    out = []
    b = tmpl
    i = 0
    ai = 0
    n = len(b)
    while i < n:
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(S(b[i + 1:i + 1 + x]))
            i += 1 + x
        elif x == 0x80:
            ln = b[i + 1] | b[i + 2] << 8
            out.append(S(b[i + 3:i + 3 + ln]))
            i += 3 + ln
        else:
            # 0xC0 | flags: placeholder with optional width/precision/flags
            fl = x & 0x3F
            i += 1
            spec = []
            if fl & 1:
                spec.append(b[i:i + 4]); i += 4
            if fl & 2:
                spec.append(b[i:i + 2]); i += 2
            if fl & 4:
                spec.append(b[i:i + 2]); i += 2
            if fl & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            a = args[ai] if ai < len(args) else app("fmtarg?")
            ai += 1
            if spec:
                a = app("fmtspec", a, S(b"".join(bytes(s) for s in spec)))
            out.append(a)
    return cat(*out) if out else S("")


# ------------------------------------------------------------------ trait calls
def trait_call(eng, fr, st, c, name, fn, args):
    tr, m = name.split("::")[-2:]
    tys = c.get("argtys") or [""] * len(args)
    D = lambda i: eng.deref(st, args[i])
    key = tr + "::" + m
    if tr in ("Clone", "Deref", "Borrow", "AsRef", "ToOwned"):
        if tr == "Clone" and m == "clone_from":
            eng.save(st, args[0].a[0], args[0].a[1], D(1))
            return [(st, UNIT)]
        ty = strip_ty(tys[0])
        if tr == "Clone" and ("Sender<" in ty):
            return [(st, D(0))]
        return [(st, D(0))]
    if tr in ("DerefMut", "BorrowMut", "AsMut"):
        return [(st, args[0])]
    if tr in ("Fn", "FnMut", "FnOnce"):
        a = args[1] if len(args) > 1 else UNIT
        tupv = [] if a is UNIT else [field(a, str(i)) for i in range(len(a.a[2]))] if a.op == "agg" else [a]
        return apply(eng, st, args[0], tupv)
    if tr == "Into" or tr == "From":
        ga = fn["args"]
        dst = (ga[1] if tr == "Into" else ga[0]) if len(ga) > 1 else ""
        src = (ga[0] if tr == "Into" else ga[1]) if len(ga) > 1 else ""
        v = D(0)
        if dst == VAL:
            return [(st, json_of(v) if src != VAL else v)]
        if dst == "std::string::String" and src == "char":
            return [(st, char_str(v))]
        if "io::Error" in dst or "dyn std::error" in dst:
            return [(st, v)]
        return [(st, v)]
    if tr in ("TryFrom", "TryInto"):
        ga = fn["args"]
        dst = ga[0] if tr == "TryFrom" else ga[1]
        src = ga[1] if tr == "TryFrom" else ga[0]
        v = D(0)
        return [(st, raw("tryconv", dst, v))]
    if key == "Try::branch":
        v = D(0)
        good = good_of(tys[0])
        bad = "Err" if good == "Ok" else "None"
        out = []
        for s, r in eng.fork(st, is_variant(v, good)):
            if r:
                out.append((s, agg("ControlFlow", "Continue", ("0",), (payload(v, good),))))
            else:
                res = NONE if good == "Some" else Err(payload(v, "Err"))
                out.append((s, agg("ControlFlow", "Break", ("0",), (res,))))
        return out
    if key == "FromResidual::from_residual":
        return [(st, D(0))]
    if key == "Try::from_output":
        dst = fn["args"][0] if fn["args"] else ""
        return [(st, Ok(D(0)) if "Result" in dst else Some(D(0)))]
    if tr == "PartialEq":
        x, y = D(0), D(1)
        ty = strip_ty(tys[0])
        r = eq_typed(x, y, ty)
        return [(st, r if m == "eq" else neg(r))]
    if tr == "PartialOrd" or tr == "Ord":
        return ord_call(eng, fr, st, c, m, fn, args, tys)
    if tr == "Index":
        v, i = D(0), D(1)
        return index_val(eng, st, v, i, tys)
    if tr == "IndexMut":
        return index_mut(eng, st, args, tys)
    if tr == "IntoIterator":
        return to_iters(eng, st, args[0], tys[0])
    if tr in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
        return iterator_call(eng, fr, st, c, m, fn, args, tys)
    if tr == "FromIterator":
        return iterator_call(eng, fr, st, c, "collect", dict(fn, args=["", fn["args"][0]]), args, tys)
    if tr == "Extend":
        out = []
        for s, x in to_iters(eng, st, args[1], tys[1]):
            out += extend(eng, s, args[0], x, tys)
        return out
    if tr == "ToString":
        return [(st, display(D(0), tys[0]))]
    if tr == "Default":
        ty = fn["args"][0] if fn["args"] else ""
        return [(st, default_of(ty))]
    if tr in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "Shr", "Shl", "BitXor"):
        ty = strip_ty(tys[0])
        if ty in ("std::string::String", "str"):
            return [(st, cat(D(0), D(1)))]
        from engine import binop
        if ty in eng_int or ty in ("f64", "f32", "bool"):
            return [(st, binop(tr, D(0), D(1), ty))]
        return opaque_ext(eng, fr, st, c, key, args)
    if tr in ("AddAssign", "SubAssign", "MulAssign"):
        ty = strip_ty(tys[0])
        v = D(0)
        if ty == "std::string::String":
            r = cat(v, D(1))
        else:
            from engine import binop
            r = binop(tr[:-6], v, D(1), ty)
        eng.save(st, args[0].a[0], args[0].a[1], r)
        return [(st, UNIT)]
    if tr in ("Neg",):
        return [(st, scale(D(0), -1))]
    if tr == "Not":
        return [(st, neg(D(0)))]
    if tr == "FromStr":
        return [(st, app("parse", D(0)))]
    if tr == "Join" or m == "join":
        return opaque_ext(eng, fr, st, c, key, args)
    if tr in ("Read", "BufRead", "Write", "Seek"):
        return io_call(eng, fr, st, c, m, fn, args, tys)
    if tr in ("Hash", "Debug", "Display"):
        return opaque_ext(eng, fr, st, c, key, args)
    if tr in ("Serialize",):
        return opaque_ext(eng, fr, st, c, key, args)
    if fn["local"]:
        # method of a local trait on an unknown type
        return opaque_local(eng, fr, st, c, key, args)
    if tr in ("Rng", "SliceRandom", "RngCore"):
        r = effect(eng, fr, st, c, "rand::" + m, args)
        now = [freeze(eng, st, a) for a in args]
        for i, a in enumerate(args):
            if a.op == "mref":
                eng.save(st, a.a[0], a.a[1], app("rand::%s!%d" % (m, i), r, *now))
        return [(st, r)]
    if tr == "Parser":
        r = effect(eng, fr, st, c, "clap::parse", args)
        return [(st, sym("cli"))]
    return opaque_ext(eng, fr, st, c, key, args)


eng_int = {"u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128", "char"}


def eq_typed(x, y, ty):
    if ty in eng_int:
        r = eq_int(x, y)
        for p, q in ((x, y), (y, x)):
            if isint(p) and p.a[0] == 0 and ty.startswith("u") and not isint(q):
                return neg(pos(q))
        return r
    if ty == "bool":
        if x.op == "bool":
            x, y = y, x
        if y.op == "bool":
            return x if y.a[0] else neg(x)
    # sequences of different kinds of literal
    if x.op == "list" and y.op == "list" and len(x.a) != len(y.a):
        return FALSE
    x, y = seq_norm(x), seq_norm(y)
    return eq(x, y)


def seq_norm(x):
    if x.op == "list" and x.a and all(isint(e) and 0 <= e.a[0] < 256 for e in x.a):
        return S(bytes(e.a[0] for e in x.a))
    return x


def default_of(ty):
    if ty in eng_int:
        return ZERO
    if ty == "bool":
        return FALSE
    if ty.startswith("std::option::Option"):
        return NONE
    if ty.startswith("std::vec::Vec"):
        return EMPTY
    if ty == "std::string::String" or ty == "&str":
        return S("")
    if "HashMap" in ty or "HashSet" in ty or "BTree" in ty or "Map" in ty:
        return app("newmap")
    return app("default", S(ty))


def ord_call(eng, fr, st, c, m, fn, args, tys):
    x, y = eng.deref(st, args[0]), eng.deref(st, args[1]) if len(args) > 1 else None
    ty = strip_ty(tys[0])
    isint_ = ty in eng_int
    if m in ("lt", "le", "gt", "ge"):
        if m in ("gt", "ge"):
            x, y = y, x
            m = {"gt": "lt", "ge": "le"}[m]
        if isint_:
            return [(st, lt(x, y) if m == "lt" else le(x, y))]
        if ty.startswith("std::option::Option<") and ty[len("std::option::Option<"):-1] in eng_int:
            pass
        return [(st, app("lt", x, y) if m == "lt" else neg(app("lt", y, x)))]
    if m in ("min", "max"):
        return [(st, minmax(m, x, y))]
    if m == "clamp":
        return [(st, minmax("min", minmax("max", x, y), eng.deref(st, args[2])))]
    if m == "cmp" or m == "partial_cmp":
        if isint_ and isint(x) and isint(y):
            d = x.a[0] - y.a[0]
            o = agg("std::cmp::Ordering", "Less" if d < 0 else "Greater" if d else "Equal", (), ())
        else:
            o = app("cmp", x, y)
        return [(st, o if m == "cmp" else Some(o))]
    return opaque_ext(eng, fr, st, c, "Ord::" + m, args)


def minmax(m, x, y):
    if x is y:
        return x
    d = sub(x, y)
    if isint(d):
        small, big = (x, y) if d.a[0] <= 0 else (y, x)
        return small if m == "min" else big
    parts = []
    for z in (x, y):
        parts += list(z.a[1:]) if z.op == "app" and z.a[0] == m else [z]
    return app(m, *sorted(set(parts), key=lambda z: z.id))


def index_val(eng, st, v, i, tys):
    if i.op == "agg" and "Range" in i.a[0]:
        b = range_bounds(i)
        if b:
            return [(st, slice_(v, b[0], b[1]))]
    t0 = strip_ty(tys[0])
    if t0.startswith(VAL) or t0.startswith("serde_json::Map"):
        return [(st, jget(v, i))]
    if "HashMap" in t0 or "BTreeMap" in t0:
        return [(st, payload(mget(v, i), "Some"))]
    return [(st, idx(v, i))]


def jget(v, k):
    if v.op == "app" and v.a[0] == "jobj":
        r = map_lookup(v.a[1], k)
        if r is not None:
            return r
    if v.op == "store":
        if v.a[1] is k:
            return v.a[2]
        if v.a[1].op == "bytes" and k.op == "bytes":
            return jget(v.a[0], k)
    return app("jget", v, k)


def map_lookup(m, k):
    while m.op == "app" and m.a[0] == "minsert":
        if m.a[2] is k:
            return m.a[3]
        if not (m.a[2].op == "bytes" and k.op == "bytes"):
            return None
        m = m.a[1]
    return None


def mget(m, k):
    t = m
    while t.op == "app" and t.a[0] == "minsert":
        if t.a[2] is k:
            return Some(t.a[3])
        if not (t.a[2].op in ("bytes", "int") and k.op in ("bytes", "int")):
            return app("mget", m, k)
        t = t.a[1]
    if t.op == "app" and t.a[0] == "newmap":
        return NONE
    return app("mget", m, k)


def index_mut(eng, st, args, tys):
    p, i = args[0], eng.deref(st, args[1])
    t0 = strip_ty(tys[0])
    if p.op != "mref":
        return [(st, idx(p, i))]
    if i.op == "agg" and "Range" in i.a[0]:
        # mutable sub-slice: handled for iteration from an offset
        b = range_bounds(i)
        return [(st, raw("mslice", p, b[0], b[1] if b[1] is not None else length(eng.deref(st, p))))]
    return [(st, raw("mref", p.a[0], p.a[1] + (("i", i),)))]


# ------------------------------------------------------------------ iterators: method calls
def as_it(eng, st, a, ty):
    v = a
    if v.op == "mref":
        t = eng.load(st, v.a[0], v.a[1])
        if t.op == "mref":
            return as_it(eng, st, t, ty)
        return it("byref", v)
    if v.op == "it":
        return v
    if v.op == "agg" and "Range" in v.a[0]:
        return range_it(v)
    return it("opq", v, ZERO)


def unbyref(eng, st, x):
    """current value of an iterator taken by reference (it is used up by the consumer)"""
    if x.op == "it" and x.a[0] == "byref":
        r = x.a[1]
        y = eng.load(st, r.a[0], r.a[1])
        if y.op == "agg":
            y = range_it(y)
        if y.op != "it":
            y = it("opq", y, ZERO)
        return y, r
    return x, None


def iterator_call(eng, fr, st, c, m, fn, args, tys):
    ga = fn["args"]
    if m == "next" or m == "next_back":
        a = args[0]
        if m == "next_back":
            x = eng.deref(st, a)
            if x.op == "it" and x.a[0] == "seq":
                v, cur, end = x.a[1:]
                out = []
                for s, r in eng.fork(st, lt(cur, end)):
                    if r:
                        e2 = sub(end, ONE)
                        eng.save(s, a.a[0], a.a[1], it("seq", v, cur, e2))
                        out.append((s, Some(idx(v, e2))))
                    else:
                        out.append((s, NONE))
                return out
            return opaque_ext(eng, fr, st, c, "next_back", args)
        if a.op != "mref":
            root = ("H", eng.fresh())
            st.mem[root] = a
            a = raw("mref", root, ())
        x = eng.deref(st, a)
        can_retry = fr is not None and retry_ok(eng, fr, st)
        outs = []
        save = st.copy()
        res = next_on(eng, st, a.a[0], a.a[1])
        if any(r is RETRY for _, _, r in res) and not can_retry:
            return find_next(eng, save, a, lambda s, e: [(s, TRUE)])
        return [(s, r) for s, _, r in res]
    if m == "size_hint":
        return opaque_ext(eng, fr, st, c, m, args)
    x = as_it(eng, st, args[0], tys[0])
    byref = None
    if m not in ("by_ref",):
        x, byref = unbyref(eng, st, x)

    def done(outs):
        # iterator consumed through a reference is exhausted
        if byref is not None:
            for s, _ in outs:
                eng.save(s, byref.a[0], byref.a[1], app("exhausted", x))
        return outs

    if m == "by_ref":
        return [(st, args[0])]
    if m in ("iter", "into_iter", "fuse", "cloned", "copied", "peekable"):
        return [(st, x)]
    if m == "map":
        return [(st, it("map", x, stash(eng, st, args[1])))]
    if m in ("filter", "inspect"):
        return [(st, it(m, x, stash(eng, st, args[1])))]
    if m == "filter_map":
        return [(st, it("fmap", x, stash(eng, st, args[1])))]
    if m == "take_while":
        return [(st, it("takewhile", x, stash(eng, st, args[1])))]
    if m == "enumerate":
        return [(st, it("enum", x, ZERO))]
    if m == "zip":
        return [(st, it("zip", x, to_iter(eng, st, args[1], tys[1])))]
    if m == "chain":
        return [(s, it("chain", x, w)) for s, w in to_iters(eng, st, args[1], tys[1])]
    if m == "rev":
        if x.a[0] == "rev" and x.a[2] is ZERO:
            return [(st, x.a[1])]
        return [(st, it("rev", x, ZERO))]
    if m == "skip":
        n = eng.deref(st, args[1])
        y = skip(x, n)
        if y is not None:
            return [(st, y)]
        return [(st, it("opq", app("skip", x, n), ZERO))]
    if m == "take":
        n = eng.deref(st, args[1])
        return [(st, it("take", x, n))]
    if m == "step_by":
        return [(st, it("opq", app("step_by", x, eng.deref(st, args[1])), ZERO))]
    if m == "flatten" and few(x) is not None and re.match(r"std::(array|vec)::IntoIter<std::option::Option<", ga[0] if ga else ""):
        outs = [(st, ())]
        for v in few(x):
            outs = [(s3, vs + ((payload(v, "Some"),) if r else ())) for s2, vs in outs for s3, r in eng.fork(s2, is_variant(v, "Some"))]
        return [(s2, seq_it(raw("list", *vs))) for s2, vs in outs]
    if m in ("flat_map", "flatten"):
        return [(st, it("flat", x, args[1] if m == "flat_map" else UNIT))]
    if m == "len":
        n = iter_size(x)
        return [(st, n if n is not None else app("itlen", x))]
    # ---- consumers
    if x.a[0] == "chain" and m in ("collect", "sum", "for_each", "count", "fold", "extend"):
        pass
    if m == "collect":
        ty = ga[1] if len(ga) > 1 else ""
        outs = collect(eng, st, x, ty)
        if strip_ty(ty).startswith(VAL):
            outs = [(s, json_of(v)) for s, v in outs]
        return done(outs)
    if m in ("sum", "product"):
        return done(fold(eng, st, x, ZERO, lambda s, acc, e: [(s, add(acc, eng.deref(s, e)))]))
    if m == "count":
        return done(fold(eng, st, x, ZERO, lambda s, acc, e: [(s, add(acc, ONE))]))
    if m == "fold":
        f = stash(eng, st, args[2])
        return done(fold(eng, st, x, args[1], lambda s, acc, e: apply(eng, s, f, [acc, e])))
    if m == "for_each":
        f = stash(eng, st, args[1])
        return done(fold(eng, st, x, UNIT, lambda s, acc, e: [(s2, UNIT) for s2, _ in apply(eng, s, f, [e])]))
    if m == "try_for_each":
        return opaque_ext(eng, fr, st, c, m, args)
    if m in ("any", "all"):
        f = stash(eng, st, args[1])
        want = m == "any"

        def step(s, e, roots):
            out = []
            for s2, v in apply(eng, s, f, [e]):
                for s3, b in eng.fork(s2, v):
                    out.append((s3, "exit", 1) if b == want else (s3, "cont", None))
            return out
        return [(s, B(want) if tag else B(not want)) for s, tag, _ in consume(eng, st, x, [], step)]
    if m in ("position", "find", "find_map", "rposition"):
        f = stash(eng, st, args[1])
        if m == "rposition":
            n = iter_size(x)
            y = it("enum", x, ZERO)
            y = it("rev", y, ZERO)
        else:
            y = it("enum", x, ZERO)
        res = ("H", eng.fresh())

        def step(s, e, roots):
            out = []
            i, v = field(e, "0"), field(e, "1")
            for s2, r in apply(eng, s, f, [v]):
                if m == "find_map":
                    for s3, b in eng.fork(s2, is_variant(r, "Some")):
                        if b:
                            s3.mem[roots[0]] = Some(payload(r, "Some"))
                        out.append((s3, "exit", 1) if b else (s3, "cont", None))
                    continue
                for s3, b in eng.fork(s2, r):
                    if b:
                        s3.mem[roots[0]] = Some(i if m in ("position", "rposition") else v)
                        out.append((s3, "exit", 1))
                    else:
                        out.append((s3, "cont", None))
            return out
        return [(s, vals[0]) for s, tag, vals in consume(eng, st, y, [NONE], step)]
    if m in ("min", "max", "min_by_key", "max_by_key", "min_by", "max_by"):
        f = args[1] if len(args) > 1 else None
        if m.endswith("_by_key") and few(x) is not None and len(ga) > 1 and ga[1] in INTS:
            # the last greatest, the first least
            f = stash(eng, st, f)
            outs = [(st, None, None)]
            for v in few(x):
                new = []
                for s2, b, kb in outs:
                    for s3, kv in eng.apply(s2, f, [v]):
                        kv = eng.deref(s3, kv)
                        if b is None:
                            new.append((s3, v, kv))
                            continue
                        for s4, r in eng.fork(s3, lt(kv, kb)):
                            new.append((s4, v, kv) if r == (m == "min_by_key") else (s4, b, kb))
                outs = new
            return [(s2, NONE if b is None else Some(b)) for s2, b, _ in outs]
        lam = lam_of(eng, st, f, 2 if m.endswith("by") else 1) if f is not None else UNIT
        # value: the m element of the sequence under key
        sq = seq_term(eng, st, x)
        return [(st, app(m, sq, lam))]
    if m == "last":
        n = iter_size(x)
        if n is not None:
            out = []
            for s, r in eng.fork(st, pos(n)):
                if r:
                    for s2, v in iter_at(eng, s, x, sub(n, ONE)):
                        out.append((s2, Some(v)))
                else:
                    out.append((s, NONE))
            return out
    if m == "nth":
        n = iter_size(x)
        k = eng.deref(st, args[1])
        if n is not None:
            out = []
            for s, r in eng.fork(st, lt(k, n)):
                if r:
                    for s2, v in iter_at(eng, s, x, k):
                        if byref is not None:
                            eng.save(s2, byref.a[0], byref.a[1], skip(x, add(k, ONE)) or app("exhausted", x))
                        out.append((s2, Some(v)))
                else:
                    out.append((s, NONE))
            return out
    if m == "unzip":
        return done(unzip(eng, st, x))
    if m == "peek":
        s0 = st.copy()
        out = []
        for s, i2, r in iter_next(eng, st, x):
            out.append((s, r))
        return out
    if m == "eq":
        return opaque_ext(eng, fr, st, c, m, args)
    return opaque_ext(eng, fr, st, c, "Iterator::" + m, args)


def retry_ok(eng, fr, st):
    """is this call the first of the current loop iteration of this frame?"""
    return len(eng.frames) == st.mark


def find_next(eng, st, a, pred):
    """next() of a filtering iterator outside a loop header: a search loop"""
    def body(s):
        out = []
        for s2, i2, r in next_on(eng, s, a.a[0], a.a[1]):
            if r is NONE:
                out.append(("exit", s2, NONE))
            elif r is RETRY:
                out.append(("cont", s2, None))
            else:
                k = ("H", -1)
                s2.mem[k] = r
                out.append(("exit", s2, 1))
        return out
    st = st.copy()
    k = ("H", -1)
    st.mem[k] = NONE
    res = []
    for kind, s, tag in eng.loop(st, body, eng.frames[-1].fn, eng.cur_span):
        v = s.mem.pop(k)
        res.append((s, NONE if tag is NONE else v))
    return res


def skip(x, n):
    k = x.a[0]
    if k == "seq":
        return it("seq", x.a[1], add(x.a[2], n), x.a[3])
    if k == "range":
        return it("range", add(x.a[1], n), x.a[2])
    if k == "mut":
        return it("mut", x.a[1], x.a[2], add(x.a[3], n), x.a[4])
    if k == "enum":
        y = skip(x.a[1], n)
        return None if y is None else it("enum", y, add(x.a[2], n))
    if k == "map":
        y = skip(x.a[1], n)
        return None if y is None else it("map", y, x.a[2])
    if k == "zip":
        y, z = skip(x.a[1], n), skip(x.a[2], n)
        return None if y is None or z is None else it("zip", y, z)
    if k == "rev":
        return it("rev", x.a[1], add(x.a[2], n))
    if k == "opq":
        return it("opq", x.a[1], add(x.a[2], n))
    return None


def stash(eng, st, f):
    """keep the state of an FnMut closure in memory so that calls see each other"""
    if f.op == "clos":
        fn = eng.fns[f.a[0]]
        if fn.locals[1][0].startswith("&mut") and any(a.op != "mref" for a in f.a[1:] if isinstance(a, T)):
            root = ("H", eng.fresh())
            st.mem[root] = f
            return raw("mref", root, ())
    return f


def fold(eng, st, x, init, f):
    def step(s, e, roots):
        acc = s.mem[roots[0]]
        out = []
        for s2, v in f(s, acc, e):
            s2.mem[roots[0]] = v
            out.append((s2, "cont", None))
        return out
    if x.a[0] == "chain":
        out = []
        for s, v in fold(eng, st, x.a[1], init, f):
            out += fold(eng, s, x.a[2], v, f)
        return out
    if x.a[0] == "flat":
        def inner(s, acc, e):
            src = [(s, e)] if x.a[2] is UNIT else apply(eng, s, x.a[2], [e])
            o = []
            for s2, w in src:
                o += fold(eng, s2, to_iter(eng, s2, w, ""), acc, f)
            return o
        return fold(eng, st, x.a[1], init, inner)
    if x.a[0] in ("map", "filter", "fmap", "inspect") and has_flat(x.a[1]):
        k = x.a[0]

        def via(s, acc, e):
            o = []
            for s2, v in apply(eng, s, x.a[2], [e]):
                if k == "map":
                    o += f(s2, acc, v)
                elif k == "inspect":
                    o += f(s2, acc, e)
                elif k == "filter":
                    for s3, b in eng.fork(s2, v):
                        o += f(s3, acc, e) if b else [(s3, acc)]
                else:
                    for s3, b in eng.fork(s2, is_variant(v, "Some")):
                        o += f(s3, acc, payload(v, "Some")) if b else [(s3, acc)]
            return o
        return fold(eng, st, x.a[1], init, via)
    return [(s, vals[0]) for s, tag, vals in consume(eng, st, x, [init], step)]


def has_flat(x):
    if x.op != "it":
        return False
    if x.a[0] in ("flat", "chain"):
        return True
    return x.a[0] in ("map", "filter", "fmap", "inspect") and has_flat(x.a[1])


def collect(eng, st, x, ty):
    b = strip_ty(ty)
    if b.startswith("std::string::String"):
        def f(s, acc, e):
            v = eng.deref(s, e)
            return [(s, cat(acc, elem_str(v, x)))]
        return fold(eng, st, x, S(""), f)
    if "HashMap" in b or "BTreeMap" in b:
        return fold(eng, st, x, app("newmap"), lambda s, a, e: [(s, app("minsert", a, field(eng.deref(s, e), "0"), field(eng.deref(s, e), "1")))])
    if "HashSet" in b or "BTreeSet" in b:
        return fold(eng, st, x, app("newmap"), lambda s, a, e: [(s, app("minsert", a, eng.deref(s, e), UNIT))])
    if b.startswith("std::result::Result") or b.startswith("std::option::Option"):
        return [(st, app("collect_try", seq_term(eng, st, x)))]
    # simple cases
    if x.a[0] == "seq" and x.a[2] is ZERO and x.a[3] is length(x.a[1]):
        return [(st, x.a[1])]
    if x.a[0] == "seq" and x.a[3] is length(x.a[1]):
        return [(st, slice_(x.a[1], x.a[2], None))]
    if x.a[0] == "seq":
        return [(st, slice_(x.a[1], x.a[2], x.a[3]))]
    if x.a[0] == "rev" and x.a[2] is ZERO and x.a[1].a[0] == "seq":
        inner = x.a[1]
        return [(st, reverse(slice_(inner.a[1], inner.a[2], inner.a[3])))]
    if x.a[0] == "chain":
        out = []
        for s, v in collect(eng, st, x.a[1], ty):
            for s2, w in collect(eng, s, x.a[2], ty):
                out.append((s2, cat(v, w)))
        return out
    return fold(eng, st, x, EMPTY, lambda s, acc, e: [(s, push(acc, eng.deref(s, e) if e.op == "mref" else e))])


def elem_str(v, x):
    """String from chars / strs"""
    if v.op in ("bytes", "cat") or (v.op == "app" and v.a[0] in ("char", "display", "lower", "upper")):
        return v
    if v.op == "int":
        return char_str(v)
    if v.op == "idx" and v.a[0].op == "app" and v.a[0].a[0] == "chars":
        return app("char", v)
    return app("strof", v)


def unzip(eng, st, x):
    r0, r1 = None, None

    def step(s, e, roots):
        s.mem[roots[0]] = push(s.mem[roots[0]], field(e, "0"))
        s.mem[roots[1]] = push(s.mem[roots[1]], field(e, "1"))
        return [(s, "cont", None)]
    return [(s, tup(*vals)) for s, tag, vals in consume(eng, st, x, [EMPTY, EMPTY], step)]


def reverse(v):
    if v.op == "list":
        return raw("list", *reversed(v.a))
    if v.op == "bytes":
        return S(bytes(reversed(v.a[0])))
    if v.op == "app" and v.a[0] == "reversed":
        return v.a[1]
    return app("reversed", v)


def seq_term(eng, st, x):
    """the sequence an iterator yields, as a value"""
    outs = collect(eng, st.copy(), x, "")
    if len(outs) == 1:
        return outs[0][1]
    return app("seqof", x)


def extend(eng, st, target, itv, tys):
    ty = strip_ty(tys[0])
    if target.op != "mref":
        return [(st, UNIT)]
    cur = eng.deref(st, target)
    if ty.startswith("std::string::String"):
        outs = collect(eng, st, itv, "std::string::String")
        for s, v in outs:
            eng.save(s, target.a[0], target.a[1], cat(cur, v))
        return [(s, UNIT) for s, _ in outs]
    if "HashMap" in ty or "HashSet" in ty:
        outs = fold(eng, st, itv, cur, lambda s, a, e: [(s, app("minsert", a, eng.deref(s, e), UNIT))])
        for s, v in outs:
            eng.save(s, target.a[0], target.a[1], v)
        return [(s, UNIT) for s, _ in outs]
    root = ("H", eng.fresh())
    outs = collect(eng, st, itv, "")
    res = []
    for s, v in outs:
        eng.save(s, target.a[0], target.a[1], append(cur, v))
        res.append((s, UNIT))
    return res


def append(v, w):
    if w.op == "list":
        for x in w.a:
            v = push(v, x)
        return v
    return cat(v, w)


INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")


def few(x):
    """the elements of an iterator over a short list that is written out"""
    if x.op == "it" and x.a[0] == "seq" and x.a[1].op == "list" and len(x.a[1].a) <= 4 and x.a[2] is ZERO and x.a[3] is I(len(x.a[1].a)):
        return x.a[1].a
    return None


def lam_of(eng, st, f, n):
    """closure as a function value: canonical term over fresh bound variables"""
    s = st.copy()
    s.depth = st.depth + (raw("iota", len(st.depth)),)
    s.conds = []
    s.asserts = []
    s.events = []
    s.evn = {}
    vs = [raw("lamvar", len(st.depth), i) for i in range(n)]
    try:
        outs = apply(eng, s, f, vs)
    except Blowup:
        return raw("lam?", f)
    cases = []
    for s2, v in outs:
        cases.append((frozenset(s2.conds), eng.deref(s2, v)))
    h = 1 + max([max_bv(t) for cs, v in cases for t in [v] + [a for a, _ in cs]] + [0])
    m = {v: raw("bv", h, i) for i, v in enumerate(vs)}
    return raw("lam", n, h, frozenset((frozenset((subst(a, m), p) for a, p in cs), subst(v, m)) for cs, v in cases))


# ------------------------------------------------------------------ I/O
def io_call(eng, fr, st, c, m, fn, args, tys):
    ref = args[0]
    cur = eng.deref(st, ref)
    ty = tys[0]
    ga = fn["args"]
    name = "io::" + m

    def setref(v):
        if ref.op == "mref":
            eng.save(st, ref.a[0], ref.a[1], v)
    if m in ("read_line", "read_until", "read_to_string", "read_to_end"):
        buf = args[-1]
        delim = (eng.deref(st, args[1]),) if m == "read_until" else ()
        old = eng.deref(st, buf)
        r = effect(eng, fr, st, c, name, [cur] + list(delim) + [old])
        res = raw("ev", name, (cur,) + delim, 0, ())
        st.events[-1].res = res
        data = app(m + ".data", cur, *delim)
        if buf.op == "mref":
            eng.save(st, buf.a[0], buf.a[1], cat(old, data))
        setref(app(m + ".next", cur, *delim))
        return [(st, res)]
    if m in ("read", "read_exact"):
        buf = args[-1]
        old = eng.deref(st, buf)
        res = raw("ev", name, (cur, length(old)), 0, ())
        effect(eng, fr, st, c, name, [cur, old], res=res)
        if buf.op == "mref":
            eng.save(st, buf.a[0], buf.a[1], app("filled", old, cur))
        setref(app(m + ".next", cur, length(old)))
        return [(st, res)]
    if m in ("write_all", "write", "write_fmt", "write_str", "write_char"):
        data = eng.deref(st, args[1])
        r = effect(eng, fr, st, c, name, [cur, data])
        setref(app("written", cur, data))
        return [(st, r)]
    if m == "seek":
        p = eng.deref(st, args[1])
        r = effect(eng, fr, st, c, name, [cur, p])
        setref(app("seeked", cur, p))
        return [(st, r)]
    if m == "flush":
        r = effect(eng, fr, st, c, name, [cur])
        setref(app("flushed", cur))
        return [(st, r)]
    if m in ("lines", "split"):
        return [(st, seq_it(app("lines", cur)))]
    if m == "by_ref":
        return [(st, ref)]
    if m == "bytes":
        return [(st, seq_it(app("iobytes", cur)))]
    r = effect(eng, fr, st, c, name, args)
    setref(app(m + ".next", cur))
    return [(st, r)]


# ------------------------------------------------------------------ inherent / free functions
def ext_call(eng, fr, st, c, name, fn, args):
    tys = c.get("argtys") or [""] * len(args)
    m = fn["name"]
    D = lambda i: eng.deref(st, args[i])
    last = name

    def setarg(i, v):
        a = args[i]
        if a.op == "mref":
            eng.save(st, a.a[0], a.a[1], v)

    # ---- diverging
    if "panicking" in name or name in ("std::process::exit", "std::process::abort", "std::intrinsics::abort") or m in ("unreachable_display",):
        if c["target"] is None:
            raise Panic()
    if c["target"] is None:
        raise Panic()
    # ---- formatting
    if "fmt::rt::Argument" in name or name.startswith("std::fmt::rt::"):
        ty = fn["args"][-1] if fn["args"] else ""
        for g in fn["args"]:
            if not g.startswith("'"):
                ty = g
        x = D(0)
        if m == "new_display":
            return [(st, display(x, ty))]
        return [(st, app("fmt." + m, x))]
    if name.startswith("std::fmt::Arguments"):
        if m == "new":
            tm, ar = D(0), D(1)
            if tm.op == "bytes" and ar.op == "list":
                return [(st, parse_fmt(tm.a[0], list(ar.a)))]
            return [(st, app("fmtargs", tm, ar))]
        if m in ("from_str", "from_str_nonconst", "new_const"):
            return [(st, D(0))]
        return [(st, app("fmtargs", *[D(i) for i in range(len(args))]))]
    if name in ("std::fmt::format", "std::hint::must_use", "std::fmt::format::format_inner", "std::hint::black_box"):
        return [(st, args[0] if args[0].op != "mref" else args[0])]
    if name in ("std::io::_print", "std::io::_eprint", "std::io::stdio::_print"):
        eng.prints += 1
        if getattr(eng, "log_prints", False):
            effect(eng, fr, st, c, "print", [D(0)])
        return [(st, UNIT)]
    if name == "std::fmt::Formatter::write_fmt" or name == "std::fmt::Formatter::write_str" or name == "std::fmt::Formatter::pad":
        effect(eng, fr, st, c, "fmt::write", [args[0], D(1)])
        st.events[-1].res = Ok(UNIT)
        return [(st, Ok(UNIT))]
    # ---- memory
    if name in ("std::mem::drop",):
        v = D(0) if args[0].op != "mref" else args[0]
        st.events.append(Ev("drop", (freeze(eng, st, v),), UNIT, fr.fn if fr else None, c["span"], argtys=tuple(tys)))
        return [(st, UNIT)]
    if name == "std::mem::replace":
        old = D(0)
        setarg(0, args[1])
        return [(st, old)]
    if name == "std::mem::take":
        old = D(0)
        setarg(0, default_of(strip_ty(tys[0])))
        return [(st, old)]
    if name == "std::mem::swap":
        x, y = D(0), D(1)
        setarg(0, y)
        setarg(1, x)
        return [(st, UNIT)]
    if name in ("std::mem::forget",):
        return [(st, UNIT)]
    if name.endswith("Box::new_uninit"):
        root = ("H", eng.fresh())
        st.mem[root] = raw("uninit", "box")
        return [(st, raw("mref", root, ()))]
    if name.endswith("box_assume_init_into_vec_unsafe"):
        v = D(0)
        if args[0].op == "mref" and args[0].a[0][0] == "H":
            st.mem.pop(args[0].a[0], None)
        return [(st, v)]
    if name.endswith("Box::new") or name.endswith("Arc::new") or name.endswith("Rc::new") or name.endswith("Cell::new") or name.endswith("Mutex::new") or name.endswith("RefCell::new"):
        return [(st, args[0])]
    if name == "std::convert::identity":
        return [(st, args[0])]
    # ---- std::cmp
    if name in ("std::cmp::min", "std::cmp::max"):
        return [(st, minmax(m, D(0), D(1)))]
    if name in ("std::cmp::Ordering::reverse",):
        x = D(0)
        if x.op == "app" and x.a[0] == "cmp":
            return [(st, app("cmp", x.a[2], x.a[1]))]
        return [(st, app("cmprev", x))]
    if name.startswith("std::cmp::Ordering::"):
        x = D(0)
        d = {"is_lt": ["Less"], "is_gt": ["Greater"], "is_eq": ["Equal"], "is_le": ["Less", "Equal"], "is_ge": ["Greater", "Equal"],
             "is_ne": ["Less", "Greater"]}
        if m in d:
            r = FALSE
            for v in d[m]:
                r = or_(r, is_variant(x, v))
            return [(st, r)]
        if m in ("then", "then_with"):
            return [(st, app("cmpthen", x, D(1) if m == "then" else app("lazy", args[1])))]
    # ---- Option / Result
    if name.startswith("std::option::Option::") or name.startswith("std::result::Result::"):
        r = optres(eng, fr, st, c, m, fn, args, tys)
        if r is not None:
            return r
    # ---- numbers
    mm = re.match(r"^std::num::(?:<impl )?(\w*)", name)
    if name.startswith("std::num::") or re.match(r"^std::(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|u128|f64|f32)::", name):
        r = num_call(eng, fr, st, c, m, fn, args, tys)
        if r is not None:
            return r
    # ---- char
    if name.startswith("std::char::"):
        if m in ("from_u32", "from_digit"):
            return [(st, app("char_from", D(0)))]
        if m in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
            x = D(0)
            if m.startswith("to_ascii"):
                return [(st, app(m, x))]
            return [(st, app("lower" if m == "to_lowercase" else "upper", char_str(x)))]
        return [(st, app("char." + m, *[D(i) for i in range(len(args))]))]
    # ---- iterator constructors
    if name in ("std::iter::once",):
        return [(st, seq_it(raw("list", args[0])))]
    if name in ("std::iter::empty",):
        return [(st, seq_it(EMPTY))]
    if name in ("std::iter::zip",):
        return [(st, it("zip", to_iter(eng, st, args[0], tys[0]), to_iter(eng, st, args[1], tys[1])))]
    if name in ("std::iter::repeat", "std::iter::repeat_n"):
        if m == "repeat_n":
            return [(st, seq_it(raw("rep", args[0], D(1))))]
        return [(st, it("seq", raw("rep", args[0], UNIT), ZERO, sym("inf")))]
    if name == "std::ops::RangeInclusive::new":
        return [(st, agg("std::ops::RangeInclusive", "RangeInclusive", ("start", "end"), (D(0), D(1))))]
    if name.startswith("std::ops::Range") and m in ("contains", "is_empty", "start", "end"):
        r = D(0)
        b = range_bounds(r)
        if b and m == "contains":
            x = D(1)
            t = le(b[0], x)
            if b[1] is not None:
                t = and_(t, lt(x, b[1]))
            return [(st, t)]
        if m == "start":
            return [(st, field(r, "start"))]
        if m == "end":
            return [(st, field(r, "end"))]
        if m == "is_empty" and b and b[1] is not None:
            return [(st, neg(lt(b[0], b[1])))]
    if name.startswith("std::bool::") and m in ("then", "then_some") and len(args) == 2:
        out = []
        for s, b in eng.fork(st, D(0)):
            if not b:
                out.append((s, NONE))
            elif m == "then_some":
                out.append((s, Some(args[1])))
            else:
                out += [(s2, Some(v)) for s2, v in apply(eng, s, args[1], [])]
        return out
    # ---- threads & channels & files & rand & time
    r = effect_call(eng, fr, st, c, name, m, fn, args, tys)
    if r is not None:
        return r
    # ---- sequences
    r = seq_call(eng, fr, st, c, name, m, fn, args, tys)
    if r is not None:
        return r
    # ---- maps
    r = map_call(eng, fr, st, c, name, m, fn, args, tys)
    if r is not None:
        return r
    # ---- json
    r = json_call(eng, fr, st, c, name, m, fn, args, tys)
    if r is not None:
        return r
    if name.startswith("std::slice::Iter") or name.startswith("std::str::Chars"):
        if m in ("as_str", "as_slice"):
            x = D(0)
            if x.op == "it" and x.a[0] == "seq":
                v = x.a[1]
                if v.op == "app" and v.a[0] == "chars":
                    return [(st, v.a[1] if x.a[2] is ZERO else app("chartail", v.a[1], x.a[2]))]
                return [(st, slice_(v, x.a[2], x.a[3]))]
    if m in IDENT and len(args) == 1:
        if m in ("as_mut", "as_mut_slice", "deref_mut", "borrow_mut", "as_deref_mut"):
            return [(st, args[0])]
        return [(st, D(0))]
    if name.startswith("std::path::") or name.startswith("std::ffi::"):
        if m in ("new", "from", "to_path_buf", "as_path", "into_os_string", "as_os_str"):
            return [(st, D(0))]
        if m == "join":
            return [(st, app("pathjoin", D(0), D(1)))]
        if m == "to_str":
            return [(st, Some(D(0)))]
        if m in ("to_string_lossy", "display"):
            return [(st, D(0))]
        if m == "push":
            setarg(0, app("pathjoin", D(0), D(1)))
            return [(st, UNIT)]
        if m in ("exists", "is_file", "is_dir", "metadata", "try_exists", "canonicalize", "read_dir"):
            return [(st, effect(eng, fr, st, c, "path::" + m, args))]
    if m == "path" and "TempFile" in name:
        return [(st, app("temppath", D(0)))]
    return opaque_ext(eng, fr, st, c, name, args)


def optres(eng, fr, st, c, m, fn, args, tys):
    isopt = "option::Option" in clean(fn["path"])
    good, bad = ("Some", "None") if isopt else ("Ok", "Err")
    mk = Some if isopt else Ok
    a = args[0]
    v = eng.deref(st, a)
    D = lambda i: eng.deref(st, args[i])

    def split(t=None):
        """[(state, True/False)] on the good variant"""
        return eng.fork(st, is_variant(v, good))

    if m in ("is_some", "is_ok"):
        return [(st, is_variant(v, good))]
    if m in ("is_none", "is_err"):
        return [(st, neg(is_variant(v, good)))]
    if m in ("unwrap", "expect", "unwrap_unchecked"):
        return unwrap(eng, st, v, good)
    if m in ("unwrap_err", "expect_err"):
        if not st.assume(neg(is_variant(v, good)), branch=False):
            return []
        return [(st, payload(v, "Err"))]
    if m in ("as_ref", "as_deref", "cloned", "copied", "iter_copied"):
        return [(st, v)]
    if m in ("as_mut", "as_deref_mut"):
        if a.op == "mref":
            out = []
            for s, r in split():
                out.append((s, mk(raw("mref", a.a[0], a.a[1] + (("v", good, "0"),))) if r else (NONE if isopt else v)))
            return out
        return [(st, v)]
    if m in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
        out = []
        for s, r in split():
            if r:
                out.append((s, payload(v, good)))
            elif m == "unwrap_or":
                out.append((s, D(1)))
            elif m == "unwrap_or_default":
                out.append((s, default_of(fn["args"][0] if fn["args"] else "")))
            else:
                out += apply(eng, s, args[1], [] if isopt else [payload(v, "Err")])
        return out
    if m == "map":
        out = []
        for s, r in split():
            if r:
                out += [(s2, mk(x)) for s2, x in apply(eng, s, args[1], [payload(v, good)])]
            else:
                out.append((s, NONE if isopt else Err(payload(v, "Err"))))
        return out
    if m == "map_err":
        out = []
        for s, r in split():
            if r:
                out.append((s, Ok(payload(v, "Ok"))))
            else:
                out += [(s2, Err(x)) for s2, x in apply(eng, s, args[1], [payload(v, "Err")])]
        return out
    if m in ("and_then",):
        out = []
        for s, r in split():
            if r:
                out += apply(eng, s, args[1], [payload(v, good)])
            else:
                out.append((s, NONE if isopt else Err(payload(v, "Err"))))
        return out
    if m in ("or_else", "or"):
        out = []
        for s, r in split():
            if r:
                out.append((s, v))
            elif m == "or":
                out.append((s, D(1)))
            else:
                out += apply(eng, s, args[1], [] if isopt else [payload(v, "Err")])
        return out
    if m == "filter":
        out = []
        for s, r in split():
            if not r:
                out.append((s, NONE))
                continue
            for s2, x in apply(eng, s, args[1], [payload(v, "Some")]):
                for s3, b in eng.fork(s2, x):
                    out.append((s3, v if b else NONE))
        return out
    if m in ("map_or", "map_or_else"):
        out = []
        for s, r in split():
            if r:
                out += apply(eng, s, args[2], [payload(v, good)])
            elif m == "map_or":
                out.append((s, D(1)))
            else:
                out += apply(eng, s, args[1], [] if isopt else [payload(v, "Err")])
        return out
    if m in ("is_some_and", "is_ok_and", "is_none_or"):
        out = []
        for s, r in split():
            if r:
                out += apply(eng, s, args[1], [payload(v, good)])
            else:
                out.append((s, B(m == "is_none_or")))
        return out
    if m == "ok":
        out = []
        for s, r in split():
            out.append((s, Some(payload(v, "Ok")) if r else NONE))
        return out
    if m == "err":
        out = []
        for s, r in split():
            out.append((s, NONE if r else Some(payload(v, "Err"))))
        return out
    if m in ("ok_or", "ok_or_else"):
        out = []
        for s, r in split():
            if r:
                out.append((s, Ok(payload(v, "Some"))))
            elif m == "ok_or":
                out.append((s, Err(D(1))))
            else:
                out += [(s2, Err(x)) for s2, x in apply(eng, s, args[1], [])]
        return out
    if m in ("take", "replace", "insert", "get_or_insert", "get_or_insert_with"):
        if a.op == "mref":
            if m == "take":
                eng.save(st, a.a[0], a.a[1], NONE)
                return [(st, v)]
            if m == "replace":
                eng.save(st, a.a[0], a.a[1], Some(args[1]))
                return [(st, v)]
            if m == "insert":
                eng.save(st, a.a[0], a.a[1], Some(args[1]))
                return [(st, raw("mref", a.a[0], a.a[1] + (("v", "Some", "0"),)))]
            out = []
            for s, r in split():
                if not r:
                    if m == "get_or_insert":
                        eng.save(s, a.a[0], a.a[1], Some(args[1]))
                        out.append((s, raw("mref", a.a[0], a.a[1] + (("v", "Some", "0"),))))
                    else:
                        for s2, x in apply(eng, s, args[1], []):
                            eng.save(s2, a.a[0], a.a[1], Some(x))
                            out.append((s2, raw("mref", a.a[0], a.a[1] + (("v", "Some", "0"),))))
                else:
                    out.append((s, raw("mref", a.a[0], a.a[1] + (("v", "Some", "0"),))))
            return out
    if m in ("zip",):
        out = []
        w = D(1)
        for s, r in split():
            if not r:
                out.append((s, NONE))
                continue
            for s2, r2 in eng.fork(s, is_variant(w, "Some")):
                out.append((s2, Some(tup(payload(v, "Some"), payload(w, "Some"))) if r2 else NONE))
        return out
    if m in ("iter", "into_iter"):
        return [(s, seq_it(raw("list", payload(v, good)) if r else EMPTY)) for s, r in split()]
    return None


def num_call(eng, fr, st, c, m, fn, args, tys):
    D = lambda i: eng.deref(st, args[i])
    ty = strip_ty(tys[0])
    fl = ty in ("f32", "f64")
    if m == "get":
        return [(st, D(0))]
    if fl:
        if m in ("total_cmp",):
            return [(st, app("cmp", D(0), D(1)))]
        return [(st, app("f." + m, *[D(i) for i in range(len(args))]))]
    if m in ("wrapping_add", "unchecked_add", "saturating_add"):
        return [(st, add(D(0), D(1)))]
    if m in ("wrapping_sub", "unchecked_sub"):
        return [(st, sub(D(0), D(1)))]
    if m == "saturating_sub":
        x, y = D(0), D(1)
        d = sub(x, y)
        if nonneg_diff(d):
            return [(st, d)]
        return [(st, minmax("max", d, ZERO))]
    if m in ("wrapping_mul", "saturating_mul"):
        return [(st, mul(D(0), D(1)))]
    if m == "checked_sub":
        x, y = D(0), D(1)
        out = []
        for s, r in eng.fork(st, le(y, x)):
            out.append((s, Some(sub(x, y)) if r else NONE))
        return out
    if m in ("checked_add", "checked_mul"):
        return [(st, Some(add(D(0), D(1)) if m == "checked_add" else mul(D(0), D(1))))]
    if m == "abs_diff":
        return [(st, app("abs_diff", *sorted((D(0), D(1)), key=lambda z: z.id)))]
    if m == "pow" and isint(D(0)) and isint(D(1)):
        return [(st, I(D(0).a[0] ** D(1).a[0]))]
    if m == "pow" and isint(D(1)) and 1 <= D(1).a[0] <= 4:
        x = D(0)
        for _ in range(D(1).a[0] - 1):
            x = mul(x, D(0))
        return [(st, x)]
    if m == "div_ceil":
        x, y = D(0), D(1)
        if isint(y):
            return [(st, div(add(x, I(y.a[0] - 1)), y))]
    if m in ("is_power_of_two",):
        return [(st, app(m, D(0)))]
    if m in ("min", "max"):
        return [(st, minmax(m, D(0), D(1)))]
    if m in ("is_ascii_whitespace", "is_ascii"):
        return [(st, app("u8." + m, D(0)))]
    if m.startswith("from_") or m.startswith("parse"):
        return [(st, app("num." + m, *[D(i) for i in range(len(args))]))]
    return [(st, app("num." + m, *[D(i) for i in range(len(args))]))]


def effect_call(eng, fr, st, c, name, m, fn, args, tys):
    D = lambda i: eng.deref(st, args[i])
    if name in ("std::thread::scope",):
        return apply(eng, st, args[0], [sym("scope")])
    if name.endswith("Scope::spawn") or name in ("std::thread::spawn",) or name.endswith("Builder::spawn") or name.endswith("Builder::spawn_scoped"):
        clos = args[-1]
        sargs = args[:-1]
        scoped = "Scope" in name or "scoped" in name
        r = effect(eng, fr, st, c, "thread::spawn", [clos], extra="scoped" if scoped else "free")
        return [(st, r if "Builder" not in name else Ok(r))]
    if m == "join" and ("JoinHandle" in name):
        h = D(0)
        r = effect(eng, fr, st, c, "thread::join", args)
        return [(st, r)]
    if name.startswith("std::sync::mpsc::"):
        if m in ("channel", "sync_channel"):
            n = effect(eng, fr, st, c, "mpsc::" + m, args + [S(" ".join(fn["args"]))])
            ty = fn["args"][0] if fn["args"] else ""
            return [(st, tup(raw("tx", n, ty, m), raw("rx", n, ty, m)))]
        r = effect(eng, fr, st, c, "mpsc::" + m, args)
        if m in ("iter", "into_iter", "try_iter"):
            return [(st, seq_it(app("recvs", D(0), S(m))))]
        return [(st, r)]
    if name in ("std::sync::Mutex::lock", "std::sync::RwLock::write", "std::sync::RwLock::read", "std::sync::Mutex::into_inner", "std::sync::Mutex::get_mut"):
        return [(st, Ok(args[0]))]
    if name.startswith("std::thread::"):
        r = effect(eng, fr, st, c, "thread::" + m, args)
        return [(st, r)]
    if name.startswith("std::fs::OpenOptions") or name == "std::fs::File::options":
        if m in ("new", "options"):
            return [(st, app("openopts"))]
        if m in ("read", "write", "append", "truncate", "create", "create_new") and args[0].op == "mref":
            v, b = D(0), D(1)
            flags = set(v.a[1:]) if v.op == "app" and v.a[0] == "openopts" else None
            if flags is not None and b.op == "bool":
                flags = flags | {m} if b is TRUE else flags - {m}
                eng.save(st, args[0].a[0], args[0].a[1], app("openopts", *sorted(flags)))
                return [(st, args[0])]
        if m == "open":
            v = D(0)
            if v.op == "app" and v.a[0] == "openopts" and set(v.a[1:]) <= {"read"}:
                r = effect(eng, fr, st, c, "fs::File::open", args[1:])
            else:
                r = effect(eng, fr, st, c, "fs::OpenOptions::open", args)
            return [(st, r)]
    if name.startswith("std::fs::"):
        if m == "len" and "Metadata" in name:
            return [(st, app("filelen", D(0)))]
        r = effect(eng, fr, st, c, name[5:], args)
        if m in ("write_all",):
            pass
        if "File::" in name and args and args[0].op == "mref":
            eng.save(st, args[0].a[0], args[0].a[1], app(m + ".next", D(0)))
        return [(st, r)]
    if name.startswith("std::io::"):
        if name.startswith("std::io::BufReader") or name.startswith("std::io::BufWriter") or name.startswith("std::io::LineWriter"):
            k = name.split("::")[2]
            if m == "new":
                return [(st, app(k, args[0] if args[0].op != "mref" else args[0]))]
            if m == "with_capacity":
                return [(st, app(k, args[1]))]
            if m in ("into_inner", "get_ref", "get_mut", "buffer", "into_parts"):
                r = effect(eng, fr, st, c, "io::" + m, args)
                return [(st, r)]
        if m in ("stdout", "stderr", "stdin", "sink", "empty"):
            return [(st, app(m))]
        if m in ("new", "other") and "Error" in name:
            return [(st, app("io::error", *[D(i) for i in range(len(args))]))]
        if m == "read_to_string":
            cur = D(0)
            res = raw("ev", "io::read_to_string", (cur,), 0, ())
            effect(eng, fr, st, c, "io::read_to_string", args, res=res)
            return [(st, res)]
        r = effect(eng, fr, st, c, "io::" + m, args)
        return [(st, r)]
    if name.startswith("rand::") or name.startswith("std::time::") or name.startswith("std::env::") or name.startswith("std::process::"):
        if name.startswith("std::time::Duration") or (name.startswith("std::time::Instant") and m != "now" and m != "elapsed"):
            return [(st, app(name, *[D(i) for i in range(len(args))]))]
        return [(st, effect(eng, fr, st, c, name, args))]
    if name.startswith("tempfile::"):
        if m == "path":
            return [(st, app("temppath", D(0)))]
        if m in ("as_file", "as_file_mut", "reopen"):
            return [(st, args[0])]
        return [(st, effect(eng, fr, st, c, name, args))]
    return None


def seq_call(eng, fr, st, c, name, m, fn, args, tys):
    """Vec / slice / str / String methods"""
    if not re.match(r"^std::(vec|slice|str|string|collections::VecDeque|array)\b", name):
        return None
    D = lambda i: eng.deref(st, args[i])

    def setarg(v):
        a = args[0]
        if a.op == "mref":
            eng.save(st, a.a[0], a.a[1], v)
    isstr = bool(re.match(r"^std::(str|string)\b", name))
    if m in ("new", "with_capacity") and len(args) <= 1:
        return [(st, S("") if isstr else EMPTY)]
    if m == "from_elem":
        n = D(1)
        return [(st, raw("rep", args[0], n))]
    if not args:
        return None
    v = D(0)
    if v.op == "mslice":
        p = v.a[0]
        if m in ("iter_mut", "into_iter"):
            return [(st, it("mut", p.a[0], p.a[1], v.a[1], v.a[2]))]
        if m == "len":
            return [(st, sub(v.a[2], v.a[1]))]
        if m == "is_empty":
            return [(st, neg(pos(sub(v.a[2], v.a[1]))))]
        return None
    if m == "len":
        return [(st, length(v))]
    if m == "is_empty":
        return [(st, neg(pos(length(v))))]
    if m in ("iter", "chunk_by"):
        return [(st, seq_it(v))]
    if m == "iter_mut":
        a = args[0]
        if a.op == "mref":
            return [(st, it("mut", a.a[0], a.a[1], ZERO, length(v)))]
        if a.op == "mslice":
            p = a.a[0]
            return [(st, it("mut", p.a[0], p.a[1], a.a[1], a.a[2]))]
        return None
    if m == "bytes":
        return [(st, seq_it(v))]
    if m == "chars":
        return [(st, seq_it(app("chars", v)))]
    if m == "char_indices":
        return [(st, seq_it(app("char_indices", v)))]
    if m == "push":
        x = args[1]
        setarg(cat(v, char_str(D(1))) if isstr else push(v, x))
        return [(st, UNIT)]
    if m in ("push_str",):
        setarg(cat(v, D(1)))
        return [(st, UNIT)]
    if m in ("extend_from_slice",):
        setarg(append(v, D(1)))
        return [(st, UNIT)]
    if m == "append":
        w = D(1)
        setarg(append(v, w))
        a = args[1]
        if a.op == "mref":
            eng.save(st, a.a[0], a.a[1], EMPTY)
        return [(st, UNIT)]
    if m == "clear":
        setarg(S("") if isstr else EMPTY)
        return [(st, UNIT)]
    if m in ("reserve", "shrink_to_fit", "shrink_to", "reserve_exact"):
        return [(st, UNIT)]
    if m == "capacity":
        return [(st, app("capacity", v))]
    if m == "pop":
        if v.op == "push":
            setarg(v.a[0])
            return [(st, Some(v.a[1]))]
        if v.op == "list" and v.a:
            setarg(raw("list", *v.a[:-1]))
            return [(st, Some(v.a[-1]))]
        out = []
        for s, r in eng.fork(st, pos(length(v))):
            if r:
                n = sub(length(v), ONE)
                if args[0].op == "mref":
                    eng.save(s, args[0].a[0], args[0].a[1], slice_(v, ZERO, n))
                out.append((s, Some(idx(v, n))))
            else:
                out.append((s, NONE))
        return out
    if m == "truncate":
        n = D(1)
        if n is length(v):
            return [(st, UNIT)]
        # keeps the first min(n, len) elements
        setarg(truncate(st, v, n))
        return [(st, UNIT)]
    if m == "resize":
        n, x = D(1), D(2)
        if v is EMPTY or (v.op == "bytes" and not v.a[0]):
            setarg(raw("rep", x, n))
        else:
            setarg(app("resize", v, n, x))
        return [(st, UNIT)]
    if m == "fill":
        setarg(raw("rep", D(1), length(v)))
        return [(st, UNIT)]
    if m == "insert":
        i, x = D(1), args[2]
        if v.op == "list" and isint(i):
            l = list(v.a)
            l.insert(i.a[0], x)
            setarg(raw("list", *l))
        elif isint(i) and i.a[0] == 0:
            setarg(cat(raw("list", x), v))
        elif i is length(v):
            setarg(push(v, x))
        else:
            setarg(cat(slice_(v, ZERO, i), raw("list", x), slice_(v, i, None)))
        return [(st, UNIT)]
    if m == "remove":
        i = D(1)
        setarg(cat(slice_(v, ZERO, i), slice_(v, add(i, ONE), None)))
        return [(st, idx(v, i))]
    if m == "swap_remove":
        i = D(1)
        n = sub(length(v), ONE)
        lastv = idx(v, n)
        setarg(slice_(store(v, i, lastv), ZERO, n))
        return [(st, idx(v, i))]
    if m == "swap":
        i, j = D(1), D(2)
        x, y = idx(v, i), idx(v, j)
        setarg(store(store(v, i, y), j, x))
        return [(st, UNIT)]
    if m == "reverse":
        setarg(reverse(v))
        return [(st, UNIT)]
    if m in ("sort", "sort_unstable"):
        setarg(app("sorted", v, S(strip_ty(tys[0]))))
        return [(st, UNIT)]
    if m in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sort_by", "sort_unstable_by"):
        lam = lam_of(eng, st, args[1], 1 if "key" in m else 2)
        setarg(app("sorted_by", v, lam, S("unstable" if "unstable" in m else "stable")))
        return [(st, UNIT)]
    if m in ("dedup", "dedup_by_key", "dedup_by"):
        setarg(app("dedup", v))
        return [(st, UNIT)]
    if m in ("retain", "retain_mut"):
        f = args[1]
        x = seq_it(v)
        def g(s, acc, e):
            o = []
            for s2, r in apply(eng, s, f, [e]):
                for s3, b in eng.fork(s2, r):
                    o.append((s3, push(acc, e) if b else acc))
            return o
        out = []
        for s, w in fold(eng, st, x, EMPTY, g):
            if args[0].op == "mref":
                eng.save(s, args[0].a[0], args[0].a[1], w)
            out.append((s, UNIT))
        return out
    if m == "drain":
        b = range_bounds(D(1))
        if b:
            part = slice_(v, b[0], b[1])
            rest = cat(slice_(v, ZERO, b[0]), slice_(v, b[1], None) if b[1] is not None else EMPTY)
            setarg(rest)
            return [(st, seq_it(part))]
    if m == "split_off":
        n = D(1)
        setarg(slice_(v, ZERO, n))
        return [(st, slice_(v, n, None))]
    if m in ("split_at",):
        n = D(1)
        return [(st, tup(slice_(v, ZERO, n), slice_(v, n, None)))]
    if m in ("first", "last"):
        out = []
        for s, r in eng.fork(st, pos(length(v))):
            out.append((s, Some(idx(v, ZERO if m == "first" else sub(length(v), ONE))) if r else NONE))
        return out
    if m in ("split_first", "split_last"):
        out = []
        for s, r in eng.fork(st, pos(length(v))):
            if not r:
                out.append((s, NONE))
            elif m == "split_first":
                out.append((s, Some(tup(idx(v, ZERO), slice_(v, ONE, None)))))
            else:
                n = sub(length(v), ONE)
                out.append((s, Some(tup(idx(v, n), slice_(v, ZERO, n)))))
        return out
    if m == "get":
        i = D(1)
        if i.op == "agg" and "Range" in i.a[0]:
            b = range_bounds(i)
            hi = b[1] if b[1] is not None else length(v)
            out = []
            for s, r in eng.fork(st, and_(le(b[0], hi), le(hi, length(v)))):
                out.append((s, Some(slice_(v, b[0], b[1])) if r else NONE))
            return out
        out = []
        for s, r in eng.fork(st, lt(i, length(v))):
            out.append((s, Some(idx(v, i)) if r else NONE))
        return out
    if m == "get_mut":
        i = D(1)
        a = args[0]
        if a.op == "mref":
            out = []
            for s, r in eng.fork(st, lt(i, length(v))):
                out.append((s, Some(raw("mref", a.a[0], a.a[1] + (("i", i),))) if r else NONE))
            return out
    if m in ("last_mut", "first_mut"):
        a = args[0]
        if a.op == "mref":
            out = []
            for s, r in eng.fork(st, pos(length(v))):
                j = ZERO if m == "first_mut" else sub(length(v), ONE)
                out.append((s, Some(raw("mref", a.a[0], a.a[1] + (("i", j),))) if r else NONE))
            return out
    if m == "get_unchecked":
        return [(st, idx(v, D(1)))]
    if m == "contains":
        x = D(1)
        if isstr:
            return [(st, app("str_contains", v, x))]
        ety = strip_ty(tys[1]) if len(tys) > 1 else ""
        return any_eq(eng, st, v, x, ety)
    if m in ("ends_with", "starts_with"):
        w = seq_norm(D(1))
        n = length(w)
        if isint(n):
            # elementwise comparison
            k = n.a[0]
            t = le(n, length(v))
            for i in range(k):
                pos_ = I(i) if m == "starts_with" else add(sub(length(v), n), I(i))
                t = and_(t, eq_int(idx(v, pos_), idx(w, I(i))))
            return [(st, t)]
        return [(st, app(m, v, w))]
    if m == "windows":
        n = D(1)
        return [(st, it("win", v, n, ZERO, add(sub(length(v), n), ONE)))]
    if m in ("to_vec", "to_owned", "into_vec", "as_slice", "as_bytes", "as_str", "into_bytes", "into_boxed_slice", "as_ref", "to_string", "into_string", "as_mut_slice", "as_mut_str"):
        if m in ("as_mut_slice", "as_mut_str"):
            return [(st, args[0])]
        return [(st, v)]
    if m in ("to_lowercase", "to_uppercase"):
        return [(st, app("lower" if m == "to_lowercase" else "upper", v))]
    if m == "join":
        if len(args) == 2 and v.op == "list" and strip_ty(tys[1]) in ("str", "std::string::String"):
            out = [v.a[0]] if v.a else [S("")]
            for x in v.a[1:]:
                out += [D(1), x]
            return [(st, cat(*out))]
    if m == "concat":
        if v.op == "list":
            return [(st, cat(*v.a))]
        return [(st, app("concat", v))]
    if m in ("copy_from_slice", "clone_from_slice"):
        setarg(D(1))
        return [(st, UNIT)]
    if m in ("from_utf8", "from_utf8_lossy", "from_utf8_unchecked"):
        if m == "from_utf8_unchecked":
            return [(st, v)]
        if m == "from_utf8_lossy":
            return [(st, app("utf8_lossy", v))]
        return [(st, app("from_utf8", v))]
    if m == "into_iter" or m == "into_iter_sorted":
        return [(st, seq_it(v))]
    if m in ("iter",):
        return [(st, seq_it(v))]
    if m == "as_str" and v.op == "it":
        return [(st, v)]
    if m == "binary_search":
        return [(st, app("bsearch", v, D(1)))]
    if m == "repeat":
        return [(st, app("repeat", v, D(1)))]
    if m == "from_fn":
        return None
    return None


def truncate(st, v, n):
    if isint(n) and n.a[0] == 0:
        return EMPTY if v.op != "bytes" else S("")
    if v.op == "list" and isint(n):
        return raw("list", *v.a[:n.a[0]])
    return slice_(v, ZERO, n)


def any_eq(eng, st, v, x, ety):
    def step(s, e, roots):
        out = []
        for s3, b in eng.fork(s, eq_typed(eng.deref(s, e), x, ety)):
            out.append((s3, "exit", 1) if b else (s3, "cont", None))
        return out
    return [(s, TRUE if tag else FALSE) for s, tag, _ in consume(eng, st, seq_it(v), [], step)]


def map_call(eng, fr, st, c, name, m, fn, args, tys):
    if not re.match(r"^(std::collections::|serde_json::(map::)?(Map|map::)|hashbrown)", name):
        return None
    D = lambda i: eng.deref(st, args[i])
    if m in ("new", "with_capacity", "with_hasher"):
        return [(st, app("newmap"))]
    if not args:
        return None
    v = D(0)
    a = args[0]

    def setarg(x):
        if a.op == "mref":
            eng.save(st, a.a[0], a.a[1], x)
    isset = "Set" in name
    if m == "insert":
        k = D(1)
        if isset:
            r = is_variant(mget(v, k), "Some")
            setarg(app("minsert", v, k, UNIT))
            return [(st, neg(r))]
        old = mget(v, k)
        setarg(app("minsert", v, k, args[2] if args[2].op != "mref" else D(2)))
        return [(st, old)]
    if m == "get":
        return [(st, mget(v, D(1)))]
    if m in ("contains_key", "contains"):
        return [(st, is_variant(mget(v, D(1)), "Some"))]
    if m == "remove":
        k = D(1)
        setarg(app("mremove", v, k))
        return [(st, mget(v, k) if not isset else is_variant(mget(v, k), "Some"))]
    if m == "entry":
        return [(st, raw("entry", a, D(1)))]
    if m in ("or_insert", "or_insert_with", "or_default") and v.op == "entry":
        base, k = v.a
        if m == "or_insert":
            d = D(1)
        elif m == "or_default":
            d = ZERO
        else:
            save = st.copy()
            outs = apply(eng, st, args[1], [])
            if len(outs) == 1 and len(outs[0][0].events) == len(save.events) and outs[0][0].mem == save.mem:
                d = outs[0][1]
                st = outs[0][0]
            else:
                res = []
                for s, has in eng.fork(save, is_variant(mget(eng.load(save, base.a[0], base.a[1]), k), "Some")):
                    if has:
                        res.append((s, raw("mref", base.a[0], base.a[1] + (("ent", k, UNIT),))))
                        continue
                    for s2, d in apply(eng, s, args[1], []):
                        eng.save(s2, base.a[0], base.a[1] + (("ent", k, UNIT),), d)
                        res.append((s2, raw("mref", base.a[0], base.a[1] + (("ent", k, UNIT),))))
                return res
        return [(st, raw("mref", base.a[0], base.a[1] + (("ent", k, d),)))]
    if m == "and_modify" and v.op == "entry":
        return None
    if m == "get_mut":
        k = D(1)
        out = []
        if a.op == "mref":
            for s, r in eng.fork(st, is_variant(mget(v, k), "Some")):
                out.append((s, Some(raw("mref", a.a[0], a.a[1] + (("ent", k, UNIT),))) if r else NONE))
            return out
    # the order of a hash table is not known, others are ordered by their keys
    kind = "hash" if "Hash" in name or "hash" in name else "tree"
    if m in ("iter", "into_iter", "drain"):
        if m == "drain":
            setarg(app("newmap"))
        return [(st, seq_it(app(kind + "iter", v)))]
    if m in ("keys", "into_keys"):
        return [(st, seq_it(app(kind + "keys", v)))]
    if m in ("last_key_value", "first_key_value") and kind == "tree":
        ks, vs = app("treekeys", v), app("treevals", v)
        n = length(ks)
        out = []
        for s, r in eng.fork(st, pos(n)):
            i = sub(n, ONE) if m == "last_key_value" else ZERO
            out.append((s, Some(tup(idx(ks, i), idx(vs, i))) if r else NONE))
        return out
    if m in ("values", "into_values"):
        return [(st, seq_it(app(kind + "vals", v)))]
    if m in ("difference", "union", "intersection", "symmetric_difference"):
        return [(st, seq_it(app(kind + "iter", app(m, v, D(1)))))]
    if m == "len":
        return [(st, app("maplen", v))]
    if m == "is_empty":
        return [(st, neg(pos(app("maplen", v))))]
    if m == "clear":
        setarg(app("newmap"))
        return [(st, UNIT)]
    return None


def json_call(eng, fr, st, c, name, m, fn, args, tys):
    if not name.startswith("serde_json::"):
        return None
    D = lambda i: eng.deref(st, args[i])
    if name == "serde_json::to_value":
        return [(st, Ok(json_of(D(0))))]
    if m in ("as_array", "as_object", "as_str", "as_i64", "as_u64", "as_bool", "as_f64", "is_number", "is_string", "is_array",
             "is_u64", "is_i64", "is_object", "is_boolean", "is_null", "as_array_mut", "as_object_mut"):
        v = D(0)
        if m == "as_object_mut" and args[0].op == "mref":
            ref = Some(raw("mref", args[0].a[0], args[0].a[1] + (("jm",),)))
            if v.op == "app" and v.a[0] == "jobj":
                return [(st, ref)]
            return [(s, ref if r else NONE) for s, r in eng.fork(st, is_variant(v, "Object"))]
        if m == "as_object" and v.op == "app" and v.a[0] == "jobj":
            return [(st, Some(v.a[1]))]
        if m.startswith("is_"):
            vn = {"is_number": "Number", "is_string": "String", "is_array": "Array", "is_object": "Object", "is_boolean": "Bool", "is_null": "Null"}.get(m)
            if vn:
                return [(st, is_variant(v, vn))]
            return [(st, app(m, v))]
        vn = {"as_array": "Array", "as_object": "Object", "as_str": "String", "as_bool": "Bool"}.get(m)
        if vn:
            out = []
            for s, r in eng.fork(st, is_variant(v, vn)):
                out.append((s, Some(payload(v, vn)) if r else NONE))
            return out
        # numbers
        if m in ("as_i64", "as_u64", "as_f64"):
            base = v
            if base.op == "payload" and base.a[1] == "Number":
                base = base.a[0]
            return [(st, raw("numopt", m, base))]
        return [(st, app(m, v))]
    if m == "get":
        v, k = D(0), D(1)
        return [(st, raw("jgetopt", v, k))]
    if m == "contains_key":
        v, k = D(0), D(1)
        return [(st, is_variant(raw("jgetopt", v, k), "Some"))]
    if name in ("serde_json::to_string", "serde_json::to_vec", "serde_json::to_string_pretty", "serde_json::to_vec_pretty"):
        r = raw("ev", "json_to_string", (D(0),), 0, ())
        return [(st, r)]
    if name in ("serde_json::to_writer", "serde_json::to_writer_pretty"):
        r = effect(eng, fr, st, c, "serde_json::to_writer", args)
        return [(st, r)]
    if name in ("serde_json::from_reader", "serde_json::from_str", "serde_json::from_slice"):
        r = raw("ev", "json_from", (D(0),), 0, ())
        effect(eng, fr, st, c, "serde_json::from", args, res=r)
        return [(st, r)]
    if m in ("insert", "remove", "new", "entry"):
        return None
    return None


# attach to the engine
def live(self, st):
    if not self.track_live:
        return None
    return {r: v for r, v in st.mem.items() if v is not MOVED}


Engine.call = lambda self, fr, st, c: call(self, fr, st, c)
Engine.apply = lambda self, st, f, args: apply(self, st, f, args)
Engine.live = live
Engine.track_live = False
Engine.strict = True
Engine.prints = 0
Engine.inline_ord = False
Engine.cur_span = None
Engine.pure_opaque = lambda self, name: True
