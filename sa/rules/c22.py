"""C22 processing a file keeps its lines"""
from commands import *

RULE = ("summary of the file-processing function: one loop that, per iteration, reads one line with its terminator and writes exactly "
        "the processed form of what was read, to the same sink, which starts as the given output; it is left only at the end of the "
        "input or on a failure, and nothing is read or written before or after it")

FN = "process_file"
SIG = "fn(&mut R, &mut W) -> std::result::Result<(), std::io::Error>"
TEXT = ("process", "fn(&str) -> std::string::String")
WRITES = ("io::write_all", "io::write_fmt", "io::write_str", "io::write")
READS = ("io::read_line", "io::read_until", "io::read", "io::read_to_string", "io::read_to_end", "io::read_exact")


def wraps(v, root):
    """v is the given stream, possibly buffered"""
    while v.op == "app" and v.a[0] in ("BufReader", "BufWriter", "LineWriter"):
        v = v.a[1]
    return v is root or (v.op == "mref" and v.a[0] == ("P", root.a[1])) if root.op == "sym" else v is root


def is_io(e):
    return e.name in WRITES or e.name in READS


def check(ctx):
    fn = ctx.role(FN, SIG)
    text = ctx.role(*TEXT)
    ps, _ = ctx.run(fn, (text,))
    w = ctx.where_fn(fn)
    loops = {}
    for p in ps:
        tops = []
        facts = set(p.conds) | set(p.asserts)
        for e in p.events:
            if isinstance(e, tuple):
                if any(is_io(x) for x, _ in flat_events([e])):
                    tops.append(e[1])
            elif e.name in WRITES:
                # (the write of the iteration that left the loop shows up again here: only a failed one leaves it)
                lost = e.res is not None and (lit(is_variant(e.res, "Ok"))[0], False) in facts
                ctx.ob("lines", "outside", lost, e.span, "something is written outside the loop over the lines: %s" % show(e.args[-1])[:200], fn)
        if not ctx.ob("lines", "one loop", len(tops) == 1, w, "%d loops read or write" % len(tops), fn):
            continue
        loops[id(tops[0])] = tops[0]
    whole_files(ctx)
    n = 0
    for L in loops.values():
        n += 1
        one_loop(ctx, fn, w, L, text)
    ctx.floor("line loops", n, 1)


def whole_files(ctx):
    """the commands process whole files: input from its start, output with nothing older left in it"""
    cmds, nm = commands(ctx)
    n = 0
    for v, ps in sorted(cmds.items()):
        for P in ps:
            for e, inits in with_roots(P.events):
                if e.name != nm[FN]:
                    continue
                n += 1
                src = e.args[0]
                while src.op == "app" and src.a[0] == "BufReader":
                    src = src.a[1]
                ok = src.op == "payload" and src.a[0].op == "ev" and src.a[0].a[0] == "fs::File::open" and src.a[0].a[1][0] is P.opt("data")
                ctx.ob("files", "input", ok, e.span, "what is processed is not the data file from its start: %s" % show(e.args[0])[:200], v)
                dst = stream_root(e.args[1], inits)
                for x, _ in flat_events(P.events):
                    if x.name in CREATES and dst.op == "payload" and dst.a[0] is x.res:
                        ctx.ob("files", "output", truncates(x), x.span, "text of an older file may be left in the output", v)
    ctx.floor("files processed", n, 2)


def read_of(p):
    rs = [e for e in p.events if not isinstance(e, tuple) and e.name in READS]
    return rs


def one_loop(ctx, fn, w, L, text):
    for p in L.paths:
        deep = [(e, ls) for e, ls in flat_events(p.events) if is_io(e) and ls]
        ctx.ob("lines", "nested", not deep, w, "lines are read or written in an inner loop", fn)
        rs = read_of(p)
        if not ctx.ob("lines", "one read", len(rs) == 1 and rs[0].name == "io::read_line", w, "an iteration reads %d times" % len(rs), fn):
            continue
        r = rs[0]
        src = r.args[0]
        leaf = [k for k, v in L.leaves.items() if v["phi"] is src]
        if not ctx.ob("lines", "reader", len(leaf) == 1 and wraps(L.leaves[leaf[0]]["init"], sym("arg", 0)), r.span,
                      "lines are read from %s instead of the input" % show(src), fn):
            continue
        ctx.ob("lines", "whole line", r.args[-1] is S("") or r.args[-1] is EMPTY, r.span,
               "a line is added to text that is already there: %s" % show(r.args[-1])[:100], fn)
        data = app("read_line.data", src)
        if p.kind == "cont":
            ctx.ob("lines", "next", p.upd.get(leaf[0]) is app("read_line.next", src), w, "the reader is changed besides reading a line", fn)
        ws = [e for e in p.events if not isinstance(e, tuple) and e.name in WRITES]
        written = cat(*[e.args[1] for e in ws]) if ws else S("")
        res = r.res if r.res is not None else raw("ev", "io::read_line", (src,), 0, ())
        facts = set(p.conds) | set(p.asserts)
        failed = lit(is_variant(res, "Err")) in facts or (lit(is_variant(res, "Ok"))[0], False) in facts
        cnt = payload(res, "Ok")
        st = State()
        for a, pl in facts:
            st.learn(a, pl)
        at_end = st.bounds(cnt)[1] == 0 or lit(eq(length(data), ZERO)) in facts
        wfail = any((lit(is_variant(e.res, "Ok"))[0], False) in facts for e in ws if e.res is not None)
        if p.kind == "cont":
            want = raw("call", text, data)
            ctx.ob("lines", "written", written is want, w, "a line is written as %s" % show(written)[:200], fn)
            for e in ws:
                k = [q for q, v in L.leaves.items() if contains(e.args[0], lambda x: x is v["phi"])]
                ctx.ob("lines", "sink", len(k) == 1 and wraps(L.leaves[k[0]]["init"], sym("arg", 1)), e.span,
                       "lines are written to %s instead of the output" % show(e.args[0])[:100], fn)
        elif p.kind == "exit":
            if failed:
                ctx.ob("lines", "after failure", not ws, w, "something is written after a failed read", fn)
            elif at_end:
                ctx.ob("lines", "at end", not ws, w, "something is written after the last line", fn)
            else:
                ctx.ob("lines", "left early", wfail, w, "the loop is left before the end of the input without a failure", fn)

