"""C24 data bytes reach the tokeniser unaltered"""
import copy
from ctx import *
from crate import Crate
import c02
import c23

RULE = ("provenance: each way to build a data source that reads everything holds exactly the bytes of the named file (or its name), the "
        "samples are consecutive slices of those bytes that leave out nothing (rule of C23), and the tokeniser gets exactly the bytes of a sample (rule of C02); "
        "no function on the way from the file to the tokeniser interprets bytes as text")

# calls that decode, validate or change bytes
TEXT = ("from_utf8", "from_utf8_lossy", "from_utf8_unchecked", "from_utf8_mut", "read_to_string", "read_line", "lines", "utf8_chunks",
        "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase",
        "trim_ascii", "trim_ascii_start", "trim_ascii_end", "replace", "escape_ascii", "decode", "chars", "strip_prefix", "strip_suffix",
        "retain", "dedup", "dedup_by_key", "sort", "sort_unstable", "reverse", "swap_remove")


def source(t, args):
    """where do these bytes come from: ("file", i) the whole contents of the file named by parameter i, ("text", i), or None"""
    if t.op == "payload" and t.a[1] == "Ok" and t.a[0].op == "ev" and t.a[0].a[0] == "fs::read":
        n = t.a[0].a[1][0]
        return ("file", n) if n in args else None
    if t.op == "app" and t.a[0] == "read_to_end.data":
        f = t.a[1]
        while f.op == "app" and f.a[0] in ("BufReader",):
            f = f.a[1]
        if f.op == "payload" and f.a[0].op == "ev" and f.a[0].a[0] == "fs::File::open" and f.a[0].a[1][0] in args:
            return ("file", f.a[0].a[1][0])
    if t in args:
        return ("text", t)
    return None


def sampler_types(ctx):
    ctx.fn("")
    return {n[1:].split(" as ")[0] for n in ctx._names if n.endswith(" as Sampler>::iter")}


def constructors(ctx, cr, live):
    ts = sampler_types(ctx)
    for n, f in sorted(ctx._names.items()):
        ret = f.d["sig"].split("->")[-1].strip().split("<")[0].split("::")[-1]
        if ret in ts and f.d["key"] in live:
            yield n, ret


def check(ctx):
    cr = Crate(ctx)
    live = cr.live()
    roots = set()
    whole = 0
    for n, ty in constructors(ctx, cr, live):
        roots.add(ctx.fn(n).d["key"])
        f = ctx.fn(n)
        w = ctx.where_fn(n)
        ps, _ = ctx.run(n)
        args = [sym("arg", i) for i in range(f.d["argc"])]
        fl = [tuple(x[:2]) for x in ctx.fields(ty)]
        for p in ps:
            if p.val.op != "agg":
                ctx.ob("source", "value", False, w, "the data source is %s" % show(p.val)[:100], n)
                continue
            for name, t in fl:
                v = field(p.val, name)
                if t in ("std::string::String", "std::path::PathBuf"):
                    ctx.ob("source", "file name", v in args, w, "the data source is the file %s" % show(v)[:100], n)
                    whole += 1
                if t == "std::vec::Vec<u8>":
                    if source(v, args) is None and parts_of_file(v):
                        # a selection of the file: which parts is another property
                        continue
                    ctx.ob("source", "contents", source(v, args) is not None, w, "the data are %s instead of the contents of the file" % show(v)[:200], n)
                    whole += 1
    ctx.floor("sources that hold all data", whole, 2)
    # samples are slices of the data
    sub = copy.copy(ctx)
    sub.obs = []
    c23.check(sub)
    # and none of the bytes is left out or handed over twice
    for o in sub.obs:
        ctx.obs.append(o)
    # the tokeniser gets the bytes of the sample
    sub2 = copy.copy(ctx)
    sub2.obs = []
    c02.check(sub2)
    k = 0
    for o in sub2.obs:
        if o.rule in ("anchor", "analysis") or o.inst == "which bytes":
            ctx.obs.append(o)
            k += 1
    ctx.floor("calls of the tokeniser with a sample", k, 2)
    # nothing on the way treats bytes as text
    for n in list(ctx._names):
        if (n.endswith(" as Sampler>::iter") or n.endswith(" as Iterator>::next") and n in c23.iterators(ctx)) and ctx.fn(n).d["key"] in live:
            roots.add(ctx.fn(n).d["key"])
    for n in (c02.ENTRY,):
        if ctx.has(n):
            roots.add(ctx.fn(n).d["key"])
    seen = cr.reach(roots)
    calls = 0
    for kx in sorted(seen):
        nm = cr.name_of.get(kx, kx)
        for rec, c in cr.sites[kx]:
            calls += 1
            on_text = rec["name"] in TEXT and not rec["key"] in ctx.prog.fns and bytes_call(rec, c, nm)
            if on_text:
                ctx.ob("bytes", "%s in %s" % (rec["name"], nm), False, c["span"], "%s on the way from the data to the tokeniser" % rec["name"], nm)
    ctx.ob("bytes", "no text", True, None, "%d calls in %d functions looked at" % (calls, len(seen)))
    ctx.floor("calls on the way to the tokeniser", calls, 40)


def bytes_call(rec, c, fn):
    """these names on collections of other things are harmless: only byte data or readers count"""
    if rec["name"] in ("sort", "sort_unstable", "reverse", "swap_remove", "retain", "dedup", "dedup_by_key", "replace", "lines", "chars", "strip_prefix", "strip_suffix"):
        return any(a == "u8" for a in rec.get("args", ())) or "str::" in rec["key"] and rec["name"] != "chars"
    return True


def parts_of_file(t):
    return any(x.op == "app" and x.a[0] in ("read_until.data", "filled") for x in walk(t)) or t.op in ("out",)
