"""C09 commands write only to their declared outputs"""
from commands import *
from c06 import tail, owner

RULE = ("every call, in a function reachable from main, of a library function that creates, changes or removes files is on an analysed path of a command, "
        "and the file it names there is the output named on the command line (process), <tokens dir>/<name of a token set>.json, or the private temporary file; "
        "process_file writes only to its output; names of token sets have no path separators")
TECHNIQUE = "effect analysis: enumeration of write-capable calls over the call graph, provenance of the path written over command summaries"

READS = ("open", "metadata", "read", "read_to_string", "read_dir", "len", "is_file", "is_dir", "file_type", "modified", "exists", "symlink_metadata",
         "try_clone", "canonicalize", "read_link", "permissions", "created", "accessed", "path", "file_name", "is_empty", "try_exists", "fmt", "from", "clone",
         "as_file", "as_file_mut", "seek", "read_exact", "read_to_end", "borrow", "as_ref", "drop", "as_fd", "into_iter", "next", "rewind", "stream_position")
TEMP = ("new", "tempfile", "path", "into_temp_path", "as_file", "as_file_mut", "reopen", "close", "with_prefix", "with_suffix", "deref", "as_ref", "to_str", "to_path_buf")


def write_capable(rec):
    """may the library function create, change or remove a file"""
    path = rec["path"].replace("core::", "std::").replace("alloc::", "std::")
    if rec.get("key") and rec["trait"] in ("std::clone::Clone", "std::fmt::Debug", "std::fmt::Display"):
        return False
    if "OpenOptions" in path:
        return rec["name"] == "open"
    if path.startswith("std::fs::") or "::fs::" in path and path.startswith(("std::", "<std::")):
        return rec["name"] not in READS
    if path.startswith("tempfile::") or "<tempfile::" in path:
        return rec["name"] not in TEMP
    if path.startswith("std::process::") and "Command" in path:
        return True
    if path.startswith(("std::os::unix::fs::", "libc::", "std::os::fd::")):
        return True
    return False


def check(ctx):
    cmds, nm = commands(ctx)
    ops, on, onm = optimizer(ctx)
    cr = Crate(ctx)
    live = cr.live()
    sites = {}
    for k in sorted(live):
        for rec, call in cr.sites[k]:
            if rec["key"] in ctx.prog.fns or rec["res"] in ctx.prog.fns:
                continue
            if write_capable(rec):
                sites[(span_of(call["span"]), tail(rec["name"]))] = (k, rec, call)
    ctx.floor("calls that can change files", len(sites), 2)
    seen = set()
    for v, ps in sorted(cmds.items()):
        for P in ps:
            for e, _ in flat_events(P.events):
                k = (span_of(e.span), tail(e.name)) if e.span else None
                if k in sites and e.name == "fs::File::open":
                    seen.add(k)         # options that only read
                elif k in sites:
                    seen.add(k)
                    allowed(ctx, P.variant, e, declared(P, nm), P)
    for p in ops:
        for e, _ in flat_events(p.events):
            k = (span_of(e.span), tail(e.name)) if e.span else None
            if k in sites:
                seen.add(k)
                allowed(ctx, "optimizer", e, lambda t: under(t, sym("arg", 6), onm), None)
    for P in cmds.get("Optimize", []):
        for e, _ in flat_events(P.events):
            if e.name == nm["optimize_tokenset"]:
                ctx.ob("directory", "optimizer", e.args[6] is P.opt("tokens_dir"), e.span, "the optimiser saves in %s instead of the tokens directory" % show(e.args[6])[:200], P.variant)
    for s, (k, rec, call) in sorted(sites.items()):
        ctx.ob("coverage", rec["name"], s in seen, call["span"], "%s can change files and is on no analysed path of a command" % rec["name"], cr.name_of.get(owner(ctx, cr, k), k))
    writes(ctx, cmds, nm)
    plain_names(ctx, nm)


def declared(P, nm):
    def ok(t):
        if P.variant == "Process" and t is P.opt("output"):
            return True
        if P.variant in ("Optimize", "ConvertTokens") and under(t, P.opt("tokens_dir"), nm):
            return True
        return False
    return ok


def under(t, d, nm):
    """<dir>/<name of a token set>.json"""
    if t.op == "app" and t.a[0] == "pathjoin" and t.a[1] is d:
        x = t.a[2]
        if x.op == "cat" and len(x.a) == 2 and x.a[1] is S(".json"):
            return x.a[0].op == "call" and x.a[0].a[0] == nm["TokenSet::name"]
    return False


def allowed(ctx, who, e, ok, P):
    if e.name in ("fs::write",) + CREATES:
        d = e.args[-1] if e.name == "fs::OpenOptions::open" else e.args[0]
        ctx.ob("file", tail(e.name), ok(d), e.span, "%s writes to %s" % (e.name, show(d)[:200]), who)
    else:
        ctx.ob("file", tail(e.name), False, e.span, "%s changes files in a way the rule does not know" % e.name, who)


WRITERS = ("io::write", "io::write_all", "io::write_fmt", "io::write_str", "io::write_vectored", "io::copy", "serde_json::to_writer")


def writes(ctx, cmds, nm):
    """data is written into the declared files only (files opened for reading are not written to)"""
    n = 0
    for v, ps in sorted(cmds.items()):
        for P in ps:
            for e, inits in with_roots(P.events):
                if e.name in WRITERS and e.args:
                    t = stream_root(e.args[-1] if e.name == "io::copy" else e.args[0], inits)
                    good = created(t) is not None or contains(t, is_temp) or t.op == "app" and t.a[0] in ("stdout", "stderr")
                    ctx.ob("stream", tail(e.name), good, e.span, "%s writes into %s" % (e.name, show(t)[:200]), v)
                if e.name == nm["process_file"]:
                    n += 1
                    out = stream_root(e.args[1], inits)
                    good = created(out) is not None or contains(out, is_temp)
                    ctx.ob("stream", "process_file", good, e.span, "the pre-processed text is written into %s" % show(out)[:200], v)
    ctx.floor("calls of process_file", n, 2)
    pf = nm["process_file"]
    ps, _ = ctx.run(pf, (ctx.role("process", "fn(&str) -> std::string::String"),))
    for p in ps:
        for e, inits in with_roots(p.events):
            if e.name in WRITERS and e.args:
                t = stream_root(e.args[-1] if e.name == "io::copy" else e.args[0], inits)
                ok = t is sym("arg", 1) or t.op == "mref" and t.a[0] == ("P", 1) or t.op == "app" and t.a[0] in ("stdout", "stderr")
                ctx.ob("stream", "input", ok, e.span, "process_file writes into something else than its output: %s" % show(t)[:200], pf)


def plain_names(ctx, nm):
    """TokenSet::name is fixed text and numbers: no path separators"""
    n = nm["TokenSet::name"]
    ps, _ = ctx.run(n)
    ctx.floor("paths of TokenSet::name", len(ps), 1)
    for p in ps:
        bad = [x for x in walk(p.val) if x.op == "bytes" and any(c in x.a[0] for c in b"/\\")]
        parts = p.val.a if p.val.op == "cat" else (p.val,)
        odd = [x for x in parts if not (x.op == "bytes" or x.op == "app" and x.a[0] == "display")]
        ctx.ob("name", "separators", not bad and not odd, ctx.where_fn(n), "names of token sets may contain path separators: %s" % show(p.val)[:200], n)
