"""Summaries of the commands: main with every helper inlined, except for the functions that
only compute (tokenisation, JSON conversion, one optimisation step), which stay calls."""
import re
from ctx import *
from crate import Crate
from cli import cli, Option_

STATS, SET, VALUE = "stats2::TokenStats", "tokenset::TokenSet", "serde_json::Value"
CACHE = "batch_tokenize::TokenizerCache<'a, S>"
LEVEL1 = [
    ("process_file", "fn(&mut R, &mut W) -> std::result::Result<(), std::io::Error>"),
    ("count_chars", ""),
    ("tokenize_file", "fn(&%s, &'a S, std::option::Option<u64>) -> %s" % (SET, STATS)),
    ("optimize_tokenset", "fn(usize, &'a S, processing::Processing, tokenset::TokenType, std::option::Option<u64>, std::option::Option<%s>, &std::path::Path) -> %s" % (SET, STATS)),
    ("TokenSet::from_json", "fn(%s) -> %s" % (VALUE, SET)),
    ("TokenSet::to_json", "fn(&%s) -> %s" % (SET, VALUE)),
    ("TokenStats::to_json", "fn(&%s) -> %s" % (STATS, VALUE)),
    ("MemorySampler::from_file", ""),
    ("MemorySampler::sample_from_file", "fn(&str, usize, usize) -> input::memory_sampler::MemorySampler"),
    ("FileSampler::new", "fn(&str, usize, std::option::Option<usize>) -> input::file_sampler::FileSampler"),
    ("TokenSet::name", "fn(&%s) -> std::string::String" % SET),
    ("TokenStats::bytes_per_token", "fn(&%s) -> f64" % STATS),
]
LEVEL2 = [x for x in LEVEL1 if x[0] != "optimize_tokenset"] + [
    ("optimization_step", "fn(&%s, usize, &BO, &mut %s, &mut std::collections::HashMap<std::vec::Vec<u8>, usize>) -> std::option::Option<%s>" % (SET, CACHE, SET)),
    ("TokenizerCache::get_stats", ""),
    ("TokenizerCache::get_stats_with_pairs", ""),
    ("<HuffOptimizer as BytesOptimizer>::optimize_bytes", ""),
    ("<SimpleBytesOptimizer as BytesOptimizer>::optimize_bytes", ""),
    ("TokenSet::new_bits1", ""), ("TokenSet::new_bits2", ""), ("TokenSet::new_bits4", ""), ("TokenSet::new_bytes", ""),
    ("TokenSet::sort", "fn(&mut %s)" % SET),
]


def names(ctx, level):
    return {n: ctx.role(n, s) for n, s in level}


class Path:
    """one way through a command"""

    def __init__(self, p, cmd, variant, name, cl):
        """variant: the command in camel case (Optimize for optimize); the enum may call it something else"""
        self.p, self.actual, self.name, self.cli = p, variant, name, cl
        self.variant = "".join(w.capitalize() for w in name.split("-"))
        self.cmd = cmd
        self.facts = set(p.conds) | set(p.asserts)
        self.events = p.events

    def opt(self, name):
        """value of an option: data, tokens_dir, ... stand for --data, --tokens-dir, ..."""
        f = self.cli.field_of(self.name, name.replace("_", "-"))
        return payload(self.cmd, self.actual, f) if f else sym("no option", name)

    def label(self):
        return "%s: %s" % (self.variant, showlits([x for x in self.p.conds])[:160])


def commands(ctx):
    """(paths by command, names of the opaque functions)"""
    if hasattr(ctx, "_commands"):
        return ctx._commands
    nm = names(ctx, LEVEL1)
    ps, e = ctx.run("main", tuple(sorted(set(nm.values()))))
    out = {}
    cl = cli(ctx)
    args = [a for a in ctx.prog.adts.values() for v in a["variants"] for f, t in v["fields"] if cl.type and t == cl.type]
    if ctx.ob("anchor", "command line", len(args) == 1, cl.where, "%d types hold the sub-command" % len(args), "main"):
        cmd = field(sym("cli"), [f for f, t in args[0]["variants"][0]["fields"] if t == cl.type][0])
        for p in ps:
            facts = set(p.conds) | set(p.asserts)
            v = [(n, x) for n, x in cl.variant.items() if lit(is_variant(cmd, x)) in facts]
            if len(v) != 1:
                ctx.ob("analysis", "command", False, ctx.where_fn("main"), "a path of main is of no known command: %s" % showlits(p.conds)[:200], "main")
                continue
            P = Path(p, cmd, v[0][1], v[0][0], cl)
            out.setdefault(P.variant, []).append(P)
        for x in cl.variant:
            ctx.ob("anchor", x, any(P.name == x for ps in out.values() for P in ps), cl.where, "no path of main carries out the command %s" % x, "main")
    ctx._commands = (out, nm)
    return ctx._commands


def optimizer(ctx):
    """summary of optimize_tokenset: (paths, name of it, names of the opaque functions)"""
    if hasattr(ctx, "_optimizer"):
        return ctx._optimizer
    nm = names(ctx, LEVEL2)
    n = names(ctx, LEVEL1)["optimize_tokenset"]
    ps, e = ctx.run(n, tuple(sorted(set(nm.values()) - {n})))
    ctx._optimizer = (ps, n, nm)
    return ctx._optimizer


def span_of(x):
    return tuple(map(str, x))


def temp_files(events):
    """results of creating a temporary file"""
    return [e for e, _ in flat_events(events) if e.name.startswith("tempfile::") and not any(contains(a, is_temp) for a in e.args)]


def is_temp(t):
    return t.op == "ev" and isinstance(t.a[0], str) and t.a[0].startswith("tempfile::")


def carries(ctx, t, what):
    """may a value lead to the file behind the term `what` (as a path, name or open file)?"""
    memo = {}

    def ty_carries(ty, seen=()):
        if re.search(r"\b(String|str|Path|PathBuf|File|OsString|OsStr|NamedTempFile|TempPath|dyn)\b", ty):
            return True
        for k, a in ctx.prog.adts.items():
            if k in seen:
                continue
            if re.search(r"(^|[^\w:])%s\b" % re.escape(k), ty):
                if any(ty_carries(f[1], seen + (k,)) for v in a["variants"] for f in v["fields"]):
                    return True
        return False

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, (tuple, frozenset)):
                return any(go(y) for y in x)
            return False
        if x in memo:
            return memo[x]
        memo[x] = False
        r = None
        if x is what:
            r = True
        elif x.op == "call":
            f = ctx.fn(x.a[0])
            ret = f.d["sig"].split("->")[-1] if f and "->" in f.d["sig"] else "dyn"
            r = ty_carries(ret) and any(go(y) for y in x.a[1:])
        elif x.op == "ev" and x.a[0] in ("json_to_string", "fs::metadata", "fs::read", "fs::write", "fs::read_to_string"):
            r = False
        elif x.op == "app" and x.a[0] in ("filelen",):
            r = False
        else:
            r = any(go(y) for y in x.a)
        memo[x] = r
        return r
    return go(t)


class Out:
    """a file a command writes: where, and what (None if not one piece of text)"""

    def __init__(self, dest, content, ev, idx, how):
        self.dest, self.content, self.ev, self.idx, self.how = dest, content, ev, idx, how


CREATES = ("fs::File::create", "fs::File::create_new", "fs::OpenOptions::open")


def truncates(e):
    """nothing of an older file of the same name is left"""
    if e.name != "fs::OpenOptions::open":
        return True
    o = e.args[0]
    return o.op == "app" and o.a[0] == "openopts" and bool({"truncate", "create_new"} & set(o.a[1:]))


def underlying(t):
    """the file behind buffered writers"""
    while t.op == "app" and t.a[0] in ("BufWriter", "LineWriter"):
        t = t.a[1]
    return t


def created(t):
    """the creation event a written file comes from, or None"""
    for x in walk(t):
        if x.op == "ev" and x.a[0] in CREATES:
            return x
    return None


def outputs(events):
    """files written, in order, at this level"""
    out = []
    for i, e in enumerate(events):
        if isinstance(e, tuple):
            continue
        if e.name == "fs::write":
            out.append(Out(e.args[0], text(e.args[1]), e, i, "write"))
        elif e.name in CREATES:
            ws = []
            for j, w in enumerate(events):
                if isinstance(w, tuple):
                    if any(x.name.startswith(("io::write", "serde_json::to_writer")) and x.args and contains(x.args[0], lambda y: y is e.res) for x, _ in flat_events([w])):
                        ws.append(None)
                    continue
                if w.name in ("io::write_all", "serde_json::to_writer", "io::write_fmt", "io::write_str") and contains(w.args[0], lambda y: y is e.res):
                    ws.append(w)
            c = None
            if len(ws) == 1 and ws[0] is not None:
                w = ws[0]
                c = json_of_text(w.args[1]) if w.name == "serde_json::to_writer" else text(w.args[1])
            out.append(Out(e.args[-1], c, e, i, "create"))
    return out


def json_of_text(v):
    return app("json_text", v)


def text(t):
    """JSON text of a value, for text made by serde_json"""
    x = t
    if x.op == "payload" and x.a[1] == "Ok" and x.a[0].op == "ev" and x.a[0].a[0] == "json_to_string":
        return app("json_text", x.a[0].a[1][0])
    return x


def stream_root(t, inits=None):
    """the stream a reader or writer is after any number of operations on it"""
    for _ in range(200):
        if inits and t in inits:
            t = inits[t]
        elif t.op == "app" and len(t.a) > 1 and isinstance(t.a[1], T) and (t.a[0] in ("BufWriter", "LineWriter", "BufReader", "written", "flushed", "filled", "seeked") or t.a[0].endswith(".next")):
            t = t.a[1]
        elif t.op in ("out", "brk") and t.a[0].op == "fold" and isinstance(t.a[1], int):
            t = t.a[0].a[2][t.a[1]]
        elif t.op == "mutout" and isinstance(t.a[1], int) and len(t.a) > 2 + t.a[1]:
            t = t.a[2 + t.a[1]]
        else:
            break
    return t


def with_roots(events, inits=None):
    """(event, initial values of the loops around it)"""
    inits = inits or {}
    for e in events:
        if isinstance(e, tuple):
            more = dict(inits)
            for v in e[1].leaves.values():
                more[v["phi"]] = v["init"]
            for q in e[1].paths:
                yield from with_roots(q.events, more)
        else:
            yield e, inits
