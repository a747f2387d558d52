"""Loading and viewing the dump produced by driver/."""
import alpha


class Program:
    def __init__(self, path):
        d = alpha.canonical(path)
        self.fns = {}
        for f in d["fns"]:
            self.fns[f["key"]] = f
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        # trait method name -> [impl fn keys]
        self.trait_impls = {}
        for i in self.impls:
            for name, key in i["methods"]:
                self.trait_impls.setdefault((i["trait"], name), []).append((i["self"], key))

    def promoted(self, key):
        return self.fns.get(key)


def place_str(p, names=None):
    l, projs, _ = p
    s = "_%d" % l
    if names and l < len(names) and names[l][1]:
        s += ":" + names[l][1]
    for e in projs:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == ".":
            s += "." + e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "as":
            s += " as " + e[1]
        else:
            s += str(e)
    return s


def const_str(c):
    if c["k"] == "fn":
        return c["fn"]["path"]
    return "%s(%s)" % (c["k"], str(c.get("v", c.get("key", c["ty"])))[:60])


def op_str(o, n=None):
    if o[0] in "cm":
        return o[0] + " " + place_str(o[1], n)
    return const_str(o[1])


def rv_str(r, n=None):
    k = r[0]
    if k == "use":
        return op_str(r[1], n)
    if k == "ref":
        return "&%s%s" % ("mut " if r[1] else "", place_str(r[2], n))
    if k == "bin":
        return "%s(%s, %s)" % (r[1], op_str(r[2], n), op_str(r[3], n))
    if k == "un":
        return "%s(%s)" % (r[1], op_str(r[2], n))
    if k == "cast":
        return "%s as %s [%s]" % (op_str(r[2], n), r[4], r[1])
    if k == "discr":
        return "discr(%s)" % place_str(r[1], n)
    if k == "agg":
        a = r[1]
        nm = a.get("adt", a.get("key", a["k"]))
        if a.get("variant"):
            nm += "::" + a["variant"]
        return "%s{%s}" % (nm, ", ".join(op_str(x, n) for x in r[2]))
    return str(r)


def show(f):
    n = f["locals"]
    print("fn", f["key"], "argc", f["argc"], f["span"])
    for i, l in enumerate(n):
        print("   let _%d: %s %s" % (i, l[0], l[1]))
    for i, b in enumerate(f["blocks"]):
        if b["cleanup"]:
            continue
        print(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=":
                print("    %s = %s" % (place_str(s[1], n), rv_str(s[2], n)))
        t = b["t"]
        if t[0] == "call":
            c = t[1]
            fn = const_str(c["f"]) if c["f"] else "dyn " + op_str(c["dyn"], n)
            print("    %s = %s(%s) -> %s   L%s" % (place_str(c["dest"], n), fn, ", ".join(op_str(a, n) for a in c["args"]), c["target"], c["span"][1]))
        elif t[0] == "switch":
            print("    switch %s %s else %s" % (op_str(t[1], n), t[2], t[3]))
        elif t[0] == "drop":
            print("    drop %s -> %s" % (place_str(t[1], n), t[2]))
        elif t[0] == "assert":
            print("    assert %s==%s %s -> %s" % (op_str(t[1], n), t[2], t[3], t[4]))
        else:
            print("   ", t)


if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1])
    if len(sys.argv) == 2:
        for k, f in p.fns.items():
            print(k, f["kind"], "derived" if f["derived"] else "", len(f["blocks"]))
    else:
        for k, f in p.fns.items():
            if sys.argv[2] in k:
                show(f)
