"""The command line: which option is stored in which field, read off the parser that clap's derive generated."""
from ctx import *

HARMLESS = {"new", "long", "short", "action", "value_parser", "required", "value_name", "help", "long_help", "alias", "visible_alias", "short_alias",
            "visible_short_alias", "hide", "value_hint", "display_order", "next_line_help", "ignore_case", "help_heading"}
INFERRED = ("_infer_ValueParser_for::new",)


class Option_:
    def __init__(self):
        self.id = self.long = self.short = None
        self.methods = []        # (name, args)
        self.parser = None


def chain(t, prefix):
    """builder calls on a value, innermost first: [(method, args)]"""
    out = []
    while t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith(prefix):
        m = t.a[0][len(prefix):]
        if m == "new":
            out.append((m, t.a[1:]))
            return out[::-1]
        if len(t.a) < 2:
            break
        out.append((m, t.a[2:]))
        t = t.a[1]
    out.append(("?", (t,)))
    return out[::-1]


def text_of(t):
    if isinstance(t, T) and t.op == "bytes":
        return t.a[0].decode("utf8", "replace")
    return None


class Cli:
    def __init__(self, ctx):
        self.ctx = ctx
        self.commands = {}      # name of the sub-command -> {long: Option_}
        self.variant = {}       # name of the sub-command -> variant of the enum
        self.fields = {}        # variant -> {field: id}
        self.where = None
        self.type = self.args = None
        fs = ctx.engine().names
        aug = [n for n, f in fs.items() if f.d.get("impl_trait") == "clap::Subcommand" and f.d["name"] == "augment_subcommands"]
        if not ctx.ob("anchor", "command line", len(aug) == 1, None, "no parser of sub-commands generated by clap", "main"):
            return
        f = fs[aug[0]]
        self.type = f.d["self_ty"]
        self.where = f.d["span"]
        ps, _ = ctx.run(aug[0])
        for p in ps:
            for m, args in chain(p.val, "clap::Command::"):
                if m == "subcommand":
                    self.command(args[0])
        par = [n for n, g in fs.items() if (g.d.get("impl_trait") or "").startswith("clap::FromArgMatches") and g.d["name"] == "from_arg_matches_mut" and g.d["self_ty"] == self.type]
        if not ctx.ob("anchor", "command values", len(par) == 1, self.where, "no conversion of the parsed options generated by clap", "main"):
            return
        ps, _ = ctx.run(par[0])
        for p in ps:
            if p.val.op == "agg" and p.val.a[1] == "Ok":
                self.values(p)

    def command(self, t):
        name, opts = None, {}
        for m, args in chain(t, "clap::Command::"):
            if m == "new":
                name = text_of(args[0])
            elif m == "name":
                name = text_of(args[0])
            elif m == "arg":
                o = Option_()
                for k, b in chain(args[0], "clap::Arg::"):
                    o.methods.append((k, b))
                    if k == "new":
                        o.id = text_of(b[0])
                    elif k == "long":
                        o.long = text_of(b[0])
                    elif k == "short":
                        o.short = b[0]
                    elif k == "value_parser":
                        o.parser = b[0]
                self.ctx.ob("anchor", "option", o.id is not None, self.where, "an option of %s has no name" % name, "main")
                opts[o.long or o.id] = o
        self.ctx.ob("anchor", "sub-command", name is not None, self.where, "a sub-command has no name", "main")
        self.commands[name] = opts

    def values(self, p):
        v = p.val.a[3]
        if v.op != "agg":
            self.ctx.ob("anchor", "command value", False, self.where, "a command is made in an unknown way: %s" % show(v)[:200], "main")
            return
        names = set()
        for c, yes in p.conds:
            if yes and (c.op == "eq" or c.op == "app" and c.a[0] == "eq"):
                for x in walk(c):
                    if text_of(x) in self.commands:
                        names.add(text_of(x))
        self.ctx.ob("anchor", "command value", len(names) == 1, self.where, "the command %s is chosen for %d names" % (v.a[1], len(names)), "main")
        for n in names:
            self.variant[n] = v.a[1]
        ids = {}
        for f, x in zip(v.a[2], v.a[3:]):
            got = None
            y = x
            if y.op == "payload":
                y = y.a[0]
            if y.op == "app" and y.a[0] in ("clap::ArgMatches::remove_one", "clap::ArgMatches::get_one", "clap::ArgMatches::get_flag") and len(y.a) > 2:
                got = text_of(y.a[2])
            self.ctx.ob("anchor", "option value", got is not None, self.where, "the field %s of %s is not the value of one option: %s" % (f, v.a[1], show(x)[-160:]), "main")
            ids[f] = got
        self.fields[v.a[1]] = ids

    def field_of(self, command, long):
        """field of the enum variant that holds option --long of a sub-command"""
        o = self.commands.get(command, {}).get(long)
        if o is None:
            return None
        for f, i in self.fields.get(self.variant.get(command), {}).items():
            if i == o.id:
                return f
        return None


def cli(ctx):
    if not hasattr(ctx, "_cli"):
        ctx._cli = Cli(ctx)
    return ctx._cli
