"""Names made canonical.

The rules know types, fields and functions by the names they had when the rules were written (schema.json). A tree in which some were
renamed is the same program up to the names, so the dump is renamed back, consistently, before anything is analysed: a type that is
missing is looked for among the new ones with the same shape, a field among the new fields of the same type in the same type, a function
among the new ones with the same signature and owner. Whatever is paired, a consistent renaming does not change what the program does;
a wrong pairing can only make a rule look at the wrong place (and fail), not hide a behaviour. The texts that derived code makes of names
(what serde writes, what clap accepts) are literals of the dump and stay as they are."""
import json
import os
import re

SCHEMA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema.json")


def shape(a, names):
    """an ADT without the names in question"""
    def ty(t):
        for n in names:
            t = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(n), "?", t)
        return re.sub(r"'\w+ ?", "", t)
    return (a["enum"], tuple((v["name"] if a["enum"] else "", tuple(ty(f[1]) for f in v["fields"])) for v in a["variants"]))


def types(d, schema):
    """{name here: canonical name}"""
    here = {a["path"]: a for a in d["adts"]}
    want = {a["path"]: a for a in schema["adts"]}
    missing = [p for p in want if p not in here]
    extra = [p for p in here if p not in want]
    if not missing or not extra:
        return {}
    names = missing + extra
    out = {}
    for key in (lambda p, a: p.split("::")[-1], lambda p, a: (p.rsplit("::", 1)[0], shape(a, names)), lambda p, a: shape(a, names)):
        for m in [x for x in missing if x not in out.values()]:
            c = [e for e in extra if e not in out and key(e, here[e]) == key(m, want[m])]
            r = [x for x in missing if x not in out.values() and key(x, want[x]) == key(m, want[m])]
            if len(c) == 1 == len(r):
                out[c[0]] = m
    return out


def local_traits(d):
    """[{path, methods, implementors}] for the traits of the crate"""
    mods = {a["path"].split("::")[0] for a in d["adts"]} | {f["key"].split("::")[1] for f in d["fns"] if f["key"].count("::") > 1}
    out = {}
    for i in d["impls"]:
        if i["trait"] and i["trait"].split("::")[0] in mods and not i["trait"].startswith(("std::", "core::", "alloc::")):
            out.setdefault(i["trait"], []).append((len(i["methods"]), i["self"]))
    return [{"path": t, "impls": sorted(x)} for t, x in sorted(out.items())]


def traits_of(d, schema):
    here, want = {t["path"]: t for t in local_traits(d)}, {t["path"]: t for t in schema["traits"]}
    missing, extra = [t for t in want if t not in here], [t for t in here if t not in want]
    out = {}
    for key in (lambda p, a: p.split("::")[-1], lambda p, a: [list(x) for x in a["impls"]], lambda p, a: (p.rsplit("::", 1)[0], len(a["impls"])), lambda p, a: 0):
        for m in [x for x in missing if x not in out.values()]:
            c = [e for e in extra if e not in out and key(e, here[e]) == key(m, want[m])]
            r = [x for x in missing if x not in out.values() and key(x, want[x]) == key(m, want[m])]
            if len(c) == 1 == len(r):
                out[c[0]] = m
    return out


def variants(d, schema):
    """{enum: {name here: canonical name}}"""
    want = {a["path"]: a for a in schema["adts"]}
    out = {}
    for a in d["adts"]:
        w = want.get(a["path"])
        if not w or not a["enum"] or not w["enum"]:
            continue
        old, new = {v["name"] for v in w["variants"]}, {v["name"] for v in a["variants"]}
        miss, extra = [v for v in w["variants"] if v["name"] not in new], [v for v in a["variants"] if v["name"] not in old]
        m = {}
        for key in (lambda v: [list(map(norm, f)) for f in v["fields"]], lambda v: [norm(f[1]) for f in v["fields"]], lambda v: 0):
            for v in list(miss):
                r, c = [x for x in miss if key(x) == key(v)], [x for x in extra if key(x) == key(v)]
                if v in miss and len(r) == len(c) and (len(r) == 1 or len(a["variants"]) == len(w["variants"])):
                    for x, y in zip(c, r):
                        m[x["name"]] = y["name"]
                        miss.remove(y)
                        extra.remove(x)
        if m:
            out[a["path"]] = m
    return out


def revariant(x, vr):
    if isinstance(x, dict):
        if x.get("k") == "adt" and x.get("adt") in vr and "variant" in x:
            x["variant"] = vr[x["adt"]].get(x["variant"], x["variant"])
        for v in x.values():
            revariant(v, vr)
    elif isinstance(x, list):
        if x and isinstance(x[0], str):
            if x[0] == "as" and len(x) > 2 and x[2] in vr:
                x[1] = vr[x[2]].get(x[1], x[1])
            if x[0] == "discr" and len(x) > 3 and x[3] in vr:
                x[2] = {k: vr[x[3]].get(v, v) for k, v in x[2].items()}
            if x[0] == "setd" and len(x) > 4 and x[4] in vr:
                x[2] = vr[x[4]].get(x[2], x[2])
        for v in x:
            revariant(v, vr)


def fields(d, schema):
    """{(type, variant): {name here: canonical name}}"""
    want = {a["path"]: a for a in schema["adts"]}
    out = {}
    for a in d["adts"]:
        w = want.get(a["path"])
        if not w:
            continue
        vs = {v["name"]: v for v in w["variants"]}
        for v in a["variants"]:
            u = vs.get(v["name"]) or (w["variants"][0] if not a["enum"] and not w["enum"] else None)
            if not u:
                continue
            old, new = {f[0] for f in u["fields"]}, {f[0] for f in v["fields"]}
            miss, extra = [f for f in u["fields"] if f[0] not in new], [f for f in v["fields"] if f[0] not in old]
            m = {}
            for t in {norm(f[1]) for f in miss}:
                x, y = [f for f in miss if norm(f[1]) == t], [f for f in extra if norm(f[1]) == t]
                if len(x) == len(y):
                    m.update({b[0]: c[0] for b, c in zip(y, x)})
            left, more = [f for f in miss if f[0] not in m.values()], [f for f in extra if f[0] not in m]
            if len(left) == len(more) == 1:
                m[more[0][0]] = left[0][0]
            if m:
                out[a["path"], v["name"]] = m
    return out


def norm(t):
    return re.sub(r"for<[^>]*> ?", "", re.sub(r"'\w+ ?", "", t)).replace("<>", "")


def owner(f):
    return (f["self_ty"] or "", (f["impl_trait"] or ""))


def functions(d, schema):
    """{key: (name here, canonical function)}"""
    from engine import base_name
    here = [f for f in d["fns"] if f["kind"] in ("Fn", "AssocFn") and not f.get("derived")]
    want = schema["fns"]
    hn, wn = {}, {}
    for f in here:
        hn.setdefault(base_name(f), []).append(f)
    for f in want:
        wn.setdefault(base_name(f), []).append(f)
    missing = [f for n, fs in wn.items() if n not in hn for f in fs]
    extra = [f for n, fs in hn.items() if n not in wn for f in fs]
    out = {}
    taken = []
    for key in (lambda f: (norm(owner(f)[0]), norm(owner(f)[1]), norm(f["sig"]), f["span"][0]), lambda f: (norm(owner(f)[0]), norm(owner(f)[1]), norm(f["sig"])), lambda f: norm(f["sig"])):
        for m in missing:
            if any(m is t for t in taken):
                continue
            r = [f for f in missing if not any(f is t for t in taken) and key(f) == key(m)]
            c = [f for f in extra if f["key"] not in out and key(f) == key(m)]
            if len(r) == len(c):
                r.sort(key=lambda f: f["span"][1])
                c.sort(key=lambda f: f["span"][1])
                for x, y in zip(c, r):
                    out[x["key"]] = (x["name"], y)
                    taken.append(y)
    return out


def canonical(path):
    text = open(path).read()
    d = json.loads(text)
    schema = json.load(open(SCHEMA))
    renamed = []
    t = types(d, schema)
    for here, want in t.items():
        text = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(here), want, text)
        # the constructor and derived code are named by the last part
        renamed.append("type %s as %s" % (here, want))
    if t:
        d = json.loads(text)
    tr = traits_of(d, schema)
    for here, want in tr.items():
        text = re.sub(r"(?<![\w])%s(?!\w)" % re.escape(here), want, text)
        text = re.sub(r"impl %s(?!\w)" % re.escape(here.split("::")[-1]), "impl " + want.split("::")[-1], text)
        renamed.append("trait %s as %s" % (here, want))
    if t or tr:
        d = json.loads(text)
        for a in d["adts"]:
            if a["path"] in t.values() and not a["enum"]:
                a["variants"][0]["name"] = a["path"].split("::")[-1]
    vr = variants(d, schema)
    for a, m in vr.items():
        for here, want in m.items():
            text = re.sub(r"(?<![\w])%s::%s(?!\w)" % (re.escape(a), re.escape(here)), "%s::%s" % (a, want), text)
            renamed.append("variant %s::%s as %s" % (a, here, want))
    if vr:
        d = json.loads(text)
        revariant(d["fns"], vr)
        for a in d["adts"]:
            for v in a["variants"]:
                v["name"] = vr.get(a["path"], {}).get(v["name"], v["name"])
            if a["path"] in t.values() and not a["enum"]:
                a["variants"][0]["name"] = a["path"].split("::")[-1]
    fl = fields(d, schema)
    fn = functions(d, schema)
    if not t and not tr and not vr and not fl and not fn:
        return d
    for (a, v), m in fl.items():
        renamed += ["field %s of %s as %s" % (x, v, y) for x, y in sorted(m.items())]
    renamed += ["function %s as %s" % (x, y["name"]) for x, y in fn.values()]
    d["renamed"] = sorted(renamed)
    last = {w: w.split("::")[-1] for w in t.values()}
    enums = {a["path"] for a in d["adts"] if a["enum"]}
    traits = {(i["trait"], n): fn[k][1]["name"] for i in d["impls"] for n, k in i["methods"] if k in fn}

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "adt" and "fields" in x:
                if x["adt"] in last and not x["enum"]:
                    x["variant"] = last[x["adt"]]
                m = fl.get((x["adt"], x["variant"]))
                if m:
                    x["fields"] = [m.get(f, f) for f in x["fields"]]
            if "key" in x and "name" in x and "path" in x:
                f = fn.get(x["key"]) or fn.get(x.get("res"))
                new = f[1]["name"] if f else traits.get((x.get("trait"), x["name"])) if x.get("trait") else None
                if new and x["name"] != new:
                    x["path"] = re.sub(r"\b%s$" % re.escape(x["name"]), new, x["path"])
                    x["name"] = new
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) == 3 and isinstance(x[1], list) and isinstance(x[0], int):
                var = None
                for e in x[1]:
                    if isinstance(e, list) and e:
                        if e[0] == "as":
                            var = e[1]
                        elif e[0] == "." and len(e) > 3 and e[3]:
                            m = fl.get((e[3], var if e[3] in enums else e[3].split("::")[-1]))
                            if m:
                                e[1] = m.get(e[1], e[1])
            for v in x:
                walk(v)
    walk(d["fns"])
    for a in d["adts"]:
        for v in a["variants"]:
            m = fl.get((a["path"], v["name"]))
            if m:
                for f in v["fields"]:
                    f[0] = m.get(f[0], f[0])
    for i in d["impls"]:
        for q in i["methods"]:
            if q[1] in fn:
                q[0] = fn[q[1]][1]["name"]
    for f in d["fns"]:
        if f["key"] in fn:
            y = fn[f["key"]][1]
            f["name"], f["self_ty"], f["impl_trait"] = y["name"], y["self_ty"], y["impl_trait"]
    return d


def make(dump):
    """writes schema.json for the tree of a dump"""
    d = json.load(open(dump))
    json.dump({"traits": local_traits(d), "adts": [{k: a[k] for k in ("path", "enum", "variants")} for a in d["adts"]],
               "fns": [{k: f[k] for k in ("key", "name", "self_ty", "impl_trait", "sig", "span", "kind")} for f in d["fns"]
                       if f["kind"] in ("Fn", "AssocFn") and not f.get("derived")]}, open(SCHEMA, "w"), indent=0)


if __name__ == "__main__":
    import sys
    make(sys.argv[1])
