"""C07 the temporary pre-processed file outlives every use"""
from commands import *

RULE = ("on every path of every command that creates a temporary file: the file is dropped exactly once, after the last event that can reach it "
        "(through its path, a sampler made from it or the open file), nothing else removes or keeps it, and it is used only after "
        "process_file has written it successfully")
TECHNIQUE = "typestate of the temporary file over command summaries (abstract interpretation of MIR, drop order included)"
BAD = ("keep", "persist", "persist_noclobber", "disable_cleanup", "into_parts", "leak")


def check(ctx):
    cmds, nm = commands(ctx)
    n = 0
    for v, ps in sorted(cmds.items()):
        for P in ps:
            n += temp(ctx, P, nm)
    ctx.floor("paths with a temporary file", n, 2)
    cr = Crate(ctx)
    k = 0
    for key in sorted(cr.live()):
        for rec, call in cr.sites[key]:
            tys = " ".join(map(str, (call.get("argtys") or ()))) + " " + " ".join(map(str, rec.get("args") or ()))
            if "TempFile" in tys or "TempPath" in tys or "tempfile::" in rec["path"]:
                k += 1
                bad = rec["name"] in BAD or rec["name"] in ("forget", "ManuallyDrop") or "ManuallyDrop" in rec["path"] or "forget" in rec["path"]
                ctx.ob("cleanup", rec["name"], not bad, call["span"], "%s keeps the temporary file from being removed" % rec["name"], cr.name_of.get(key, key))
    ctx.floor("calls on temporary files", k, 2)


def temp(ctx, P, nm):
    made = temp_files(P.events)
    if not made:
        return 0
    for e in made:
        top = any(x is e for x in P.events)
        ctx.ob("temp", "made once", top, e.span, "a temporary file is created in a loop", P.variant)
        if not top:
            continue
        one(ctx, P, e, nm)
    return 1


def one(ctx, P, made, nm):
    T0 = made.res
    mentions = lambda t: contains(t, lambda x: x is T0)
    last_use = None
    drops = []
    written = None
    early = None
    seq = list(P.events)
    for i, e in enumerate(seq):
        if isinstance(e, tuple):
            for q in e[1].paths:
                if q.kind == "exit":
                    continue
                for x, _ in flat_events(q.events):
                    if x.name == "drop":
                        if is_file_drop(ctx, x) and mentions(x.args[0]):
                            ctx.ob("lifetime", "drop in loop", False, x.span, "the temporary file is dropped in a loop", P.variant)
                    elif any(carries(ctx, a, T0) for a in x.args):
                        last_use = (i, x)
                        if written is None:
                            early = early or x
            continue
        if e.name == "drop":
            if is_file_drop(ctx, e) and mentions(e.args[0]):
                drops.append((i, e))
            continue
        if e is made:
            continue
        if any(carries(ctx, a, T0) for a in e.args):
            if e.name == nm["process_file"] and lit(is_variant(e.res, "Ok")) in P.facts and mentions(e.args[1]):
                written = e
            elif written is None and not e.name.startswith("tempfile::"):
                early = early or e
            last_use = (i, e)
            if e.name.startswith(("fs::remove", "fs::rename", "fs::write", "fs::File::create", "fs::OpenOptions", "fs::copy")):
                ctx.ob("lifetime", e.name, False, e.span, "the temporary file is changed or removed by %s" % e.name, P.variant)
    ctx.ob("lifetime", "complete", written is not None, made.span, "the temporary file is not filled by process_file (%s)" % P.label(), P.variant)
    ctx.ob("lifetime", "used when complete", early is None, (early or made).span, "the temporary file is used before it is written", P.variant)
    ctx.ob("lifetime", "removed", len(drops) == 1, made.span, "the temporary file is dropped %d times on the path %s" % (len(drops), P.label()), P.variant)
    if drops and last_use:
        ctx.ob("lifetime", "order", drops[0][0] > last_use[0], drops[0][1].span,
               "the temporary file is removed before its last use by %s" % last_use[1].name, P.variant)


def is_file_drop(ctx, e):
    return any(has_temp(ctx, t) for t in e.argtys)


def has_temp(ctx, ty, seen=()):
    """does a type own a temporary file"""
    if ty.startswith("&"):
        return False
    if "NamedTempFile" in ty or "TempPath" in ty:
        return True
    for k, a in ctx.prog.adts.items():
        if k not in seen and re.search(r"(^|[^\w:])%s\b" % re.escape(k), ty):
            if any(has_temp(ctx, f[1], seen + (k,)) for v in a["variants"] for f in v["fields"]):
                return True
    return False
