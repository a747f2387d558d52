"""Whole-crate facts read off the MIR: call graph, sites of calls, writes to a type's fields."""


class Crate:
    def __init__(self, ctx):
        self.p = ctx.prog
        ctx.fn("")
        self.name_of = {f.d["key"]: n for n, f in ctx._names.items()}
        self.edges = {}
        self.sites = {}
        for k, f in self.p.fns.items():
            self.edges[k] = self._callees(k, f)
        self.back = {}
        for k, s in self.edges.items():
            for c in s:
                self.back.setdefault(c, set()).add(k)

    def _callees(self, k, f):
        out = set()
        sites = []

        def const(c):
            if c.get("k") == "fn":
                r = c["fn"]
                t = [r["res"]] if r["res"] in self.p.fns else []
                if not t and r["key"] in self.p.fns:
                    t = [r["key"]]
                if not t and r["trait"]:
                    t = [x for _, x in self.p.trait_impls.get((r["trait"], r["name"]), []) if x in self.p.fns]
                out.update(t)
                out.update(c2 for c2 in r["clos"] if c2 in self.p.fns)
            elif c.get("key") in self.p.fns:
                out.add(c["key"])

        def op(o):
            if o[0] == "k":
                const(o[1])

        for b in f["blocks"]:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg":
                    if rv[1].get("key") in self.p.fns:
                        out.add(rv[1]["key"])
                    for x in rv[2]:
                        op(x)
                else:
                    for x in rv[1:]:
                        if isinstance(x, list) and x and x[0] in ("k",):
                            op(x)
            t = b["t"]
            if t[0] == "call":
                c = t[1]
                if c["f"]:
                    const(c["f"])
                    if c["f"].get("k") == "fn":
                        sites.append((c["f"]["fn"], c))
                for a in c["args"]:
                    op(a)
        self.sites[k] = sites
        return out

    def reach(self, roots):
        seen = set()
        st = list(roots)
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            st.extend(self.edges.get(k, ()))
        return seen

    def live(self):
        """functions reachable from main"""
        return self.reach([k for k, f in self.p.fns.items() if f["name"] == "main" and f["parent"] == self.p_crate()])

    def p_crate(self):
        return next(iter(self.p.fns)).split("::")[0]

    def only_from(self, k, allowed):
        """is every call chain to k through one of the allowed functions (k itself may be one)"""
        seen = set()
        st = [k]
        while st:
            x = st.pop()
            if x in seen or x in allowed:
                continue
            seen.add(x)
            b = self.back.get(x, ())
            if not b and x != k and self.is_root(x):
                return False
            if not b and x == k:
                return not self.is_root(k) and k not in self.live()
            st.extend(b)
            if self.is_root(x):
                return False
        return True

    def is_root(self, k):
        f = self.p.fns[k]
        return f["name"] == "main" and f["parent"] == self.p_crate()

    def field_writes(self, adt, fields):
        """(function, field, span) of every assignment to, or mutable borrow of, one of the fields of the type"""
        out = []
        for k, f in self.p.fns.items():
            for b in f["blocks"]:
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    pls = [s[1]]
                    if s[2][0] in ("ref", "addr") and s[2][1]:
                        pls.append(s[2][2])
                    for i, pl in enumerate(pls):
                        ty = f["locals"][pl[0]][0]
                        hit = None
                        for e in pl[1]:
                            if e[0] == "." and e[1] in fields and strip(ty).split("::")[-1] == adt:
                                hit = e[1]
                            if e[0] == ".":
                                ty = self.field_ty(ty, e[1])
                            elif e[0] not in ("*",):
                                ty = ""
                        if hit:
                            out.append((k, hit, s[3] if len(s) > 3 else f["span"]))
                t = b["t"]
                if t[0] == "call" and t[1]["dest"][1]:
                    pl = t[1]["dest"]
                    ty = f["locals"][pl[0]][0]
                    for e in pl[1]:
                        if e[0] == "." and e[1] in fields and strip(ty).split("::")[-1] == adt:
                            out.append((k, e[1], t[1]["span"]))
                        if e[0] == ".":
                            ty = self.field_ty(ty, e[1])
        return out

    def field_ty(self, ty, f):
        a = self.p.adts.get(strip(ty))
        if a and len(a["variants"]) == 1:
            for n, t in [tuple(x)[:2] for x in a["variants"][0]["fields"]]:
                if n == f:
                    return t
        return ""


def strip(ty):
    while ty.startswith("&"):
        ty = ty[1:]
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[-1]
        if ty.startswith("mut "):
            ty = ty[4:]
    return ty
