#!/usr/bin/env python3
"""reshape.py OUT.jsonl [name-prefix...] : mechanical rewrites of /repo's live source that change no behaviour, against all checks.

Every rewrite is applied to all its places in one file at once; when that does not build, place by place."""
import json
import os
import re
import shutil
import subprocess
import sys
import concurrent.futures as cf
import queue

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = os.environ.get("SELFTEST_DIR", "/tmp/reshape")
FILES = ["batch_tokenize.rs", "main.rs", "optimize.rs", "optimize_bytes.rs", "processing.rs", "stats2.rs", "tokenizer2.rs", "tokenset.rs",
         "input/file_sampler.rs", "input/memory_sampler.rs", "input/sample.rs", "input/util.rs"]


def close(s, i):
    """index of the bracket closing the one at i"""
    d, j = 0, i
    while j < len(s):
        c = s[j]
        if c == '"':
            j += 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
        elif c == "'" and re.match(r"'(\\.[^']*|[^\\'])'", s[j:]):
            j += re.match(r"'(\\.[^']*|[^\\'])'", s[j:]).end() - 1
        elif s.startswith("//", j):
            j = s.find("\n", j)
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0:
                return j
        j += 1
    return -1


def head(s, i):
    """the `{` that opens the block of the statement starting at i (skipping brackets), or -1"""
    j = i
    while j < len(s):
        c = s[j]
        if c in "([":
            j = close(s, j)
            if j < 0:
                return -1
        elif c == "{":
            return j
        elif c in ";}":
            return -1
        elif c == '"':
            j += 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
        elif c == "|":
            return -1
        j += 1
    return -1


def rx(pat, rep):
    def f(s):
        return [(m.start(), m.end(), m.expand(rep)) for m in re.finditer(pat, s, re.M)]
    return f


N = [0]


def fresh():
    N[0] += 1
    return "tmp%d" % N[0]


def loops(s):
    for m in re.finditer(r"^([ \t]*)((?:'\w+: )?)(for|while|if) ", s, re.M):
        b = head(s, m.end())
        if b < 0:
            continue
        e = close(s, b)
        yield m, s[m.end():b].strip(), b, e


def for_while(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) == "for" and " in " in h:
            p, x = h.split(" in ", 1)
            if m.group(2):
                continue
            n = fresh()
            out.append((m.start(), b + 1, "%slet mut %s = (%s).into_iter();\n%swhile let Some(%s) = %s.next() {" % (m.group(1), n, x, m.group(1), p, n)))
    return out


def for_loop(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) == "for" and " in " in h:
            p, x = h.split(" in ", 1)
            if m.group(2):
                continue
            n = fresh()
            out.append((m.start(), b + 1, "%slet mut %s = (%s).into_iter();\n%sloop { let %s = match %s.next() { Some(v) => v, None => break };" % (m.group(1), n, x, m.group(1), p, n)))
    return out


def for_each(s):
    out = []
    for m, h, b, e in loops(s):
        body = s[b + 1:e]
        if m.group(3) == "for" and " in " in h and not re.search(r"\b(break|continue|return)\b|\?", body):
            p, x = h.split(" in ", 1)
            out.append((m.start(), e + 1, "%s(%s).into_iter().for_each(|%s| {%s});" % (m.group(1), x, p, body)))
    return out


def for_index(s):
    out = []
    for m, h, b, e in loops(s):
        q = re.match(r"\((\w+), (&?)(\w+)\) in ([\w.\[\]]+)\.iter\(\)\.enumerate\(\)$", h)
        if m.group(3) == "for" and q:
            i, r, v, x = q.groups()
            out.append((m.start(), b + 1, "%s%sfor %s in 0..%s.len() { let %s = %s%s[%s];" % (m.group(1), m.group(2), i, x, v, "" if r else "&", x, i)))
        q = re.match(r"(&?)(\w+) in ([\w.]+)\.iter\(\)$", h)
        if m.group(3) == "for" and q:
            r, v, x = q.groups()
            n = fresh()
            out.append((m.start(), b + 1, "%s%sfor %s in 0..%s.len() { let %s = %s%s[%s];" % (m.group(1), m.group(2), n, x, v, "" if r else "&", x, n)))
    return out


def while_loop(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) == "while":
            if h.startswith("let "):
                p, x = h[4:].split(" = ", 1)
                out.append((m.start(), b + 1, "%s%sloop { let %s = %s else { break };" % (m.group(1), m.group(2), p, x)))
            else:
                out.append((m.start(), b + 1, "%s%sloop { if !(%s) { break; }" % (m.group(1), m.group(2), h)))
    return out


def named_cond(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) == "if" and not re.search(r"\blet\b", h):
            n = fresh()
            out.append((m.start(), b, "%slet %s = %s;\n%sif %s " % (m.group(1), n, h, m.group(1), n)))
    return out


def invert(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) != "if" or re.search(r"\blet\b", h):
            continue
        q = re.match(r"\s*else \{", s[e + 1:])
        if q:
            b2 = e + 1 + q.end() - 1
            e2 = close(s, b2)
            out.append((m.start(), e2 + 1, "%sif !(%s) %s else %s" % (m.group(1), h, s[b2:e2 + 1], s[b:e + 1])))
        elif not re.match(r"\s*else", s[e + 1:]):
            out.append((m.start(), e + 1, "%sif !(%s) {} else %s" % (m.group(1), h, s[b:e + 1])))
    return out


def match_bool(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) != "if" or re.search(r"\blet\b", h):
            continue
        q = re.match(r"\s*else \{", s[e + 1:])
        if q:
            b2 = e + 1 + q.end() - 1
            e2 = close(s, b2)
            out.append((m.start(), e2 + 1, "%smatch %s { true => %s, false => %s }" % (m.group(1), h, s[b:e + 1], s[b2:e2 + 1])))
    return out


def iflet_match(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) != "if" or not h.startswith("let ") or "&&" in h:
            continue
        p, x = h[4:].split(" = ", 1)
        q = re.match(r"\s*else \{", s[e + 1:])
        if q:
            b2 = e + 1 + q.end() - 1
            e2 = close(s, b2)
            out.append((m.start(), e2 + 1, "%smatch %s { %s => %s, _ => %s }" % (m.group(1), x, p, s[b:e + 1], s[b2:e2 + 1])))
        elif not re.match(r"\s*else", s[e + 1:]):
            out.append((m.start(), e + 1, "%smatch %s { %s => %s, _ => {} }" % (m.group(1), x, p, s[b:e + 1])))
    return out


def nested_and(s):
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) == "if" and " && " in h and not re.search(r"\blet\b|\|\||\(.*&&.*\)", h) and not re.match(r"\s*else", s[e + 1:]):
            x, y = h.split(" && ", 1)
            out.append((m.start(), e + 1, "%sif %s { if %s %s }" % (m.group(1), x, y, s[b:e + 1])))
    return out


def early(s):
    """if at the end of a loop body: continue unless"""
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) == "if" and not re.search(r"\blet\b", h) and re.match(r"\s*\n\s*\}", s[e + 1:]):
            # inside a for/while body?
            k = e + 1 + re.match(r"\s*\n\s*\}", s[e + 1:]).end() - 1
            for m2, h2, b2, e2 in loops(s):
                if e2 == k and m2.group(3) in ("for", "while"):
                    out.append((m.start(), e + 1, "%sif !(%s) { continue; }\n%s" % (m.group(1), h, s[b + 1:e].strip())))
    return out


def lets(s):
    for m in re.finditer(r"^([ \t]*)let ((?:mut )?\w+)(: [^=;\n]+)? = ", s, re.M):
        j = m.end()
        while j < len(s) and s[j] != ";":
            if s[j] in "([{":
                j = close(s, j)
            elif s[j] == '"':
                j += 1
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
            j += 1
        if s[m.end():j].rstrip().endswith("}") and re.search(r"\belse\s*\{[^{}]*(return|break|continue)", s[m.end():j]) and not re.match(r"(if|match)\b", s[m.end():j]):
            continue
        yield m, s[m.end():j], j


def let_block(s):
    return [(m.start(), j + 1, "%slet %s%s = { %s };" % (m.group(1), m.group(2), m.group(3) or "", x)) for m, x, j in lets(s) if not x.startswith("&")]


def let_twice(s):
    out = []
    for m, x, j in lets(s):
        n = fresh()
        out.append((m.start(), j + 1, "%slet %s%s = %s; let %s%s = %s;" % (m.group(1), n, m.group(3) or "", x, m.group(2), m.group(3) or "", n)))
    return out


def let_late(s):
    out = []
    for m, x, j in lets(s):
        n = m.group(2)
        if not n.startswith("mut "):
            out.append((m.start(), j + 1, "%slet %s%s;\n%s%s = %s;" % (m.group(1), n, m.group(3) or "", m.group(1), n, x)))
    return out


def let_closure(s):
    out = []
    for m, x, j in lets(s):
        if not re.search(r"\?|\b(return|break|continue)\b", x) and not x.startswith("|") and not x.startswith("&"):
            out.append((m.start(), j + 1, "%slet %s%s = (|| %s)();" % (m.group(1), m.group(2), m.group(3) or "", x)))
    return out


def lets_swapped(s):
    out = []
    L = [(m, x, j) for m, x, j in lets(s)]
    last = -1
    for (m, x, j), (m2, x2, j2) in zip(L, L[1:]):
        a, b = m.group(2).split()[-1], m2.group(2).split()[-1]
        if s[j + 1:m2.start()].strip() or m.start() < last or re.search(r"\b%s\b" % a, x2) or re.search(r"\b%s\b" % b, x) or re.search(r"\?|&mut|\bself\.\w+\(|\.(read|next|recv|lock)|Command|open|create|new\(.+\)", x + x2):
            continue
        out.append((m.start(), j2 + 1, s[m2.start():j2 + 1] + "\n" + s[m.start():j + 1]))
        last = j2
    return out


def quest(s):
    out = []
    for m in re.finditer(r"(?<=[\w)])\?(?=[;.)])", s):
        # the expression before: go back to a balanced start
        i = m.start()
        d = 0
        j = i - 1
        while j >= 0:
            c = s[j]
            if c in ")]}":
                d += 1
            elif c in "([{":
                if d == 0:
                    break
                d -= 1
            elif d == 0 and (c in ";,=" or s[j - 6:j + 1] == "return "):
                break
            j -= 1
        x = s[j + 1:i]
        if x.strip() and "?" not in x:
            out.append((j + 1, i + 1, " match %s { Ok(v) => v, Err(e) => return Err(e.into()) }" % x.strip() if s[i + 1] == ";" or s[i + 1] == ")" else " (match %s { Ok(v) => v, Err(e) => return Err(e.into()) })" % x.strip()))
    return out


def quest_maperr(s):
    return [(m.start(), m.end(), ".map_err(|e| e)?") for m in re.finditer(r"(?<=\))\?(?=;)", s)]


def opassign(s):
    return [(m.start(), m.end(), "%s%s = %s %s (%s);" % (m.group(1), m.group(2), m.group(2), m.group(3), m.group(4)))
            for m in re.finditer(r"^([ \t]*)([\w.\[\]*]+) ([-+*/])= ([^;\n]+);", s, re.M)]


def flipped(s):
    F = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
    return [(m.start(2), m.end(), "%s %s %s" % (m.group(4), F[m.group(3)], m.group(2)))
            for m in re.finditer(r"(if |while |\|\| |&& |assert!\(|\(|=> |return |= )([\w.]+(?:\(\))?) (<|>|<=|>=|==|!=) ([\w.]+(?:\(\))?)(?=( \{| &&| \|\||,|;|\)))", s)]


def fnwrap(s):
    """f delegates to a new function with its body"""
    out = []
    for m in re.finditer(r"^([ \t]*)((?:pub )?)fn (\w+)((?:<[^>(]*>)?)\(", s, re.M):
        if m.group(3) in ("main", "eq", "drop", "fmt", "next", "iter", "total_size", "as_bytes", "optimize_bytes", "default", "cmp", "partial_cmp", "hash", "from"):
            continue
        p = close(s, m.end() - 1)
        b = head(s, p + 1)
        if b < 0:
            continue
        ps = s[m.end():p]
        names, selfarg, ok = [], False, True
        d = 0
        cur = ""
        for c in ps + ",":
            if c in "<([":
                d += 1
            if c in ">)]":
                d -= 1
            if c == "," and d == 0:
                a = cur.strip()
                cur = ""
                if not a:
                    continue
                if re.match(r"&?(mut )?self$", a):
                    selfarg = True
                    continue
                q = re.match(r"(?:mut )?(\w+):", a)
                if not q:
                    ok = False
                    break
                names.append(q.group(1))
            else:
                cur += c
        if not ok:
            continue
        ind = m.group(1)
        e = close(s, b)
        pre = "self." if selfarg else "Self::" if ind else ""
        ret = s[p + 1:b]
        clean = re.sub(r"\bmut (?=\w+:)", "", ps)
        out.append((m.start(), e + 1, "%s%sfn %s%s(%s)%s{ %s%s_inner(%s) }\n%sfn %s_inner%s(%s)%s%s" % (
            ind, m.group(2), m.group(3), m.group(4), clean, ret, pre, m.group(3), ", ".join(names), ind, m.group(3), m.group(4), ps, ret, s[b:e + 1])))
    return out


def ifbody(s):
    """the body of a conditional becomes a closure called at once"""
    out = []
    for m, h, b, e in loops(s):
        if m.group(3) == "if" and not re.search(r"\?|\b(return|break|continue)\b", s[b:e + 1]) and s[b:e].rstrip().endswith(";") and not re.match(r"\s*else", s[e + 1:]):
            out.append((b, e + 1, "{ let mut act = || %s; act(); }" % s[b:e + 1]))
    return out


def retlast(s):
    """the last expression of a function becomes a return"""
    out = []
    for m in re.finditer(r"^([ \t]*)(?:pub )?fn \w+(?:<[^>(]*>)?\(", s, re.M):
        p = close(s, m.end() - 1)
        b = head(s, p + 1)
        if b < 0 or "->" not in s[p:b]:
            continue
        e = close(s, b)
        body = s[b + 1:e].rstrip()
        k = body.rfind("\n")
        last = body[k + 1:]
        if re.match(r"^\s+[\w(&!.:{},\[\]\s-]+.*[\w)\]]$", last) and len(last) - len(last.lstrip()) == len(m.group(1)) + 4 and not last.strip().startswith((".", "}", "return")):
            out.append((b + 1 + k + 1, b + 1 + len(body), "%s    return %s;" % (m.group(1), last.strip())))
    return out


def loopbody(s):
    """the body of a loop that is not left from within becomes a closure called at once"""
    out = []
    for m in re.finditer(r"^[ \t]*(for|while) ", s, re.M):
        o = head(s, m.start())
        if o < 0:
            continue
        c = close(s, o)
        b = s[o + 1:c]
        if re.search(r"\b(break|continue|return)\b|\?;|\?\.", b) or re.search(r"^[ \t]*(for|while|loop) ", b, re.M):
            continue
        out.append((o, c + 1, "{ (|| {%s})(); }" % b))
    return out


def arms(s):
    """two neighbouring arms of a match with paths or literals as patterns change places"""
    out = []
    pat = r"(?:[A-Z]\w*(?:::\w+)?(?:\([\w, ]*\))?|\"[^\"\n]*\"|'[^'\n]*'|\d+)"
    for m in re.finditer(r"^([ \t]*)(%s => [^{}\n]*,)\n\1(%s => [^{}\n]*,)\n" % (pat, pat), s, re.M):
        out.append((m.start(), m.end(), "%s%s\n%s%s\n" % (m.group(1), m.group(3), m.group(1), m.group(2))))
    return out


def inits(s):
    """two neighbouring fields of a struct literal change places"""
    return [(m.start(), m.end(), "%s%s\n%s%s\n" % (m.group(1), m.group(3), m.group(1), m.group(2)))
            for m in re.finditer(r"^([ \t]+)(\w+: [^;{}\n]+,)\n\1(\w+: [^;{}\n]+,)\n", s, re.M)]


def consts(s):
    """numbers become named constants at the top"""
    out, n = [], 0
    top = ""
    for m in re.finditer(r"(?<=[ (])(\d{2,})(?=[;,) ])(?! =>)", s):
        ln = s[s.rfind("\n", 0, m.start()) + 1:s.find("\n", m.start())]
        if re.search(r"\bconst\b|#\[|//|\[u8;|format|print", ln) or "as f" in ln:
            continue
        ty = "u64" if "u64" in ln else "usize"
        n += 1
        top += "const NUM%d: %s = %s;\n" % (n, ty, m.group(1))
        out.append((m.start(), m.end(), "NUM%d" % n))
    if not out:
        return []
    at = re.search(r"^(pub )?(fn|struct|enum|impl|#\[derive)", s, re.M).start()
    # one edit, to keep the definitions with the uses
    t = apply(s, out + [(at, at, top)])
    return [(0, len(s), t)]


RW = {
    "loopbody": loopbody, "arms": arms, "inits": inits, "consts": consts,
    "any_all": rx(r"(?<![\w)])([a-z][\w.]*(?:\(\))?)\.any\(\|(\w+)\| ([^|\n]*?)\)(?=[ ;)&|]|$)", r"!\1.all(|\2| !(\3))"),
    "all_any": rx(r"(?<![\w)!])([a-z][\w.]*(?:\(\))?)\.all\(\|(\w+)\| ([^|\n]*?)\)(?=[ ;)&|]|$)", r"!\1.any(|\2| !(\3))"),
    "sum_fold": rx(r"\.sum(?:::<\w+>)?\(\)", r".fold(0, |a, b| a + b)"),
    "copied_map": rx(r"\.(copied|cloned)\(\)", r".map(|x| x.clone())"),
    "map_copied": rx(r"\.cloned\(\)", r".map(ToOwned::to_owned)"),
    "for_iter_mut": rx(r"in &mut ([\w.]+) \{", r"in \1.iter_mut() {"),
    "while_some": rx(r"^([ \t]*)for (\w+) in ([^{}\n]+) \{$", r"\1let mut seq_it = (\3).into_iter();\n\1while let Some(\2) = seq_it.next() {"),
    "loop_next": rx(r"^([ \t]*)for (\w+) in ([^{}\n]+) \{$", r"\1let mut seq_it = (\3).into_iter();\n\1loop {\n\1let Some(\2) = seq_it.next() else { break };"),
    "for_enum": rx(r"^([ \t]*)for (\w+) in ([^{}\n]+) \{$", r"\1for (_n, \2) in (\3).into_iter().enumerate() {"),
    "for_skip": rx(r"^([ \t]*)for (\w+) in (\w+)\.\.([^{}\n]+) \{$", r"\1for \2 in (0..(\4)).skip(\3 as usize) {"),
    "for_peek": rx(r"^([ \t]*)for (\w+) in ([^{}\n]+) \{$", r"\1for \2 in (\3).into_iter().peekable() {"),
    "for_vec": rx(r"^([ \t]*)for (\w+) in ([^{}\n]+) \{$", r"\1let seq_all: Vec<_> = (\3).into_iter().collect();\n\1for \2 in seq_all {"),
    "ref_slice": rx(r": &Vec<(\w+)>", r": &[\1]"),
    "ref_str": rx(r": &String\b", r": &str"),
    "where_into": rx(r"\.into_iter\(\)\.collect\(\)", r".into_iter().collect::<Vec<_>>()"),
    "entry_or": rx(r"\.or_insert\(0\)", r".or_default()"),
    "entry_with": rx(r"\.or_insert\(([^()\n]*)\)", r".or_insert_with(|| \1)"),
    "if_let_some": rx(r"if ([\w.]+)\.is_some\(\) \{", r"if let Some(_) = \1 {"),
    "then": rx(r"^([ \t]*)let (\w+) = if ([^{}\n]+) \{\n\s*([^{};\n]+)\n\s*\} else \{\n\s*([^{};\n]+)\n\s*\};", r"\1let \2 = match \3 { true => \4, false => \5 };"),
    "assign_if": rx(r"^([ \t]*)let (\w+) = if ([^{}\n]+) \{\n\s*([^{};\n]+)\n\s*\} else \{\n\s*([^{};\n]+)\n\s*\};", r"\1let \2;\n\1if \3 { \2 = \4; } else { \2 = \5; }"),
    "for_while": for_while, "for_loop": for_loop, "for_each": for_each, "for_index": for_index, "while_loop": while_loop, "named_cond": named_cond,
    "invert": invert, "match_bool": match_bool, "iflet_match": iflet_match, "nested_and": nested_and, "early": early, "let_block": let_block,
    "let_twice": let_twice, "let_late": let_late, "let_closure": let_closure, "lets_swapped": lets_swapped, "quest": quest, "quest_maperr": quest_maperr,
    "opassign": opassign, "flipped": flipped, "fnwrap": fnwrap, "ifbody": ifbody, "retlast": retlast,
    "iter_ref": rx(r"in ([\w.]+)\.iter\(\) \{", r"in &\1 {"),
    "into_iter": rx(r"in &([\w.]+) \{", r"in \1.iter() {"),
    "expect": rx(r"\.unwrap\(\)", r'.expect("unexpected")'),
    "unwrap_match": rx(r"= (\w[\w.]*\([^()\n]*\))\.unwrap\(\);", r'= match \1 { Some(v) => v, None => panic!("none") };'),
    "unwrap_ok": rx(r"= (\w[\w.:]*\([^()\n]*\))\.unwrap\(\);", r'= match \1 { Ok(v) => v, Err(e) => panic!("{:?}", e) };'),
    "is_none": rx(r"\.is_none\(\)", r".is_some() == false"),
    "is_some": rx(r"(\w[\w.]*)\.is_some\(\)", r"matches!(\1, Some(_))"),
    "not_empty": rx(r"!([\w.]+)\.is_empty\(\)", r"\1.len() > 0"),
    "is_empty": rx(r"(?<![!\w.])([\w.]+)\.is_empty\(\)", r"\1.len() == 0"),
    "vec_new": rx(r"Vec::new\(\)", r"vec![]"),
    "vec_cap": rx(r"Vec::new\(\)", r"Vec::with_capacity(16)"),
    "vec_default": rx(r"(Vec|HashMap|String|HashSet)::new\(\)", r"\1::default()"),
    "map_cap": rx(r"HashMap::new\(\)", r"HashMap::with_capacity(64)"),
    "to_owned": rx(r"\.to_string\(\)", r".to_owned()"),
    "string_from": rx(r"(\"[^\"\n]*\")\.to_string\(\)", r"String::from(\1)"),
    "assert_panic": rx(r"^([ \t]*)assert!\((.+)\);$", r'\1if !(\2) { panic!("assertion"); }'),
    "assert_eq": rx(r"assert_eq!\(([^,\n]+), ([^,\n]+)\);", r"assert!(\1 == \2);"),
    "incl": rx(r"\.\.=(\w+)(?=[\])} ])", r"..(\1 + 1)"),
    "maxmin": rx(r"std::cmp::(min|max)\(([^,()\n]+), ([^,()\n]+)\)", r"(\2).\1(\3)"),
    "inv_maxmin": rx(r"std::cmp::(min|max)\(([^,()\n]+), ([^,()\n]+)\)", r"std::cmp::\1(\3, \2)"),
    "clone_ref": rx(r"(\w[\w.]*)\.clone\(\)", r"Clone::clone(&\1)"),
    "get_index": rx(r"(\w+)\[0\]", r"\1.first().copied().unwrap()"),
    "first": rx(r"\.last\(\)\.unwrap\(\)", r'.iter().last().unwrap()'),
    "as_paren": rx(r"(\w[\w.]*) as (usize|u64|f64|u8|u32)\b", r"((\1) as \2)"),
    "not_eq": rx(r"(?<=if )([\w.]+) != ([\w.]+) \{", r"!(\1 == \2) {"),
    "not_lt": rx(r"(?<=if )([\w.]+(?:\(\))?) < ([\w.]+(?:\(\))?) \{", r"!(\1 >= \2) {"),
    "not_ge": rx(r"(?<=if )([\w.]+(?:\(\))?) >= ([\w.]+(?:\(\))?) \{", r"!(\1 < \2) {"),
    "push_ext": rx(r"\.push\(([^()\n]*)\);", r".extend([\1]);"),
    "ext_slice": rx(r"\.extend_from_slice\(&?([^()\n]*)\);", r".extend(\1.iter().cloned());"),
    "slice_full": rx(r"&([a-z]\w*)\[\.\.\]", r"\1.as_slice()"),
    "arc_clone": rx(r"(\w[\w.]*)\.clone\(\)", r"(&\1).clone()"),
    "print_out": rx(r"^([ \t]*)println!\(", r"\1eprintln!("),
    "le_plus": rx(r"(\w[\w.]*(?:\(\))?) <= (\w[\w.]*(?:\(\))?)(?= \{)", r"\1 < \2 + 1"),
    "gt_plus": rx(r"(\w[\w.]*(?:\(\))?) > (\w[\w.]*(?:\(\))?)(?= \{)", r"\1 >= \2 + 1"),
    "commuted": rx(r"(?<=[=(] )(\w[\w.]*) \+ (\w[\w.]*)(?=[;)])", r"\2 + \1"),
}


def apply(s, edits):
    edits = sorted(edits)
    out, at = [], 0
    for a, b, t in edits:
        if a < at:
            continue
        out += [s[at:a], t]
        at = b
    return "".join(out) + s[at:]


def live(f):
    s = open(os.path.join("/repo/src", f)).read()
    k = s.find("#[cfg(test)]")
    return (s, "") if k < 0 else (s[:k], s[k:])


def judge(name, f, text, slot):
    src, bld = os.path.join(W, "src%d" % slot), os.path.join(W, "bld%d" % slot)
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree("/repo", src, ignore=shutil.ignore_patterns("target", ".git"))
    open(os.path.join(src, "src", f), "w").write(text)
    env = dict(os.environ, VERIF_REPO=src, VERIF_BUILD=bld, SA_NOEVIDENCE="1")
    if not os.path.exists(os.path.join(bld, "drv")):
        os.makedirs(bld, exist_ok=True)
        shutil.copytree(os.path.join(ROOT, ".build", "drv"), os.path.join(bld, "drv"), symlinks=True)
    r = subprocess.run([sys.executable, os.path.join(ROOT, "sa", "build.py")], env=env, capture_output=True, text=True)
    if r.returncode:
        e = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("error")]
        return "nobuild", "; ".join(e[:2])[:200]
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "checkall.py"), os.path.join(bld, "dump.json")] + sys_only(), env=env, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    if r.returncode:
        return "ALARM", r.stdout[-1500:] or r.stderr[-300:]
    return "quiet", ""


def sys_only():
    return os.environ.get("ONLY", "").replace(",", " ").split()


def one(name, f, slot):
    s, rest = live(f)
    try:
        ed = RW[name](s)
    except Exception as e:
        return [{"name": name, "file": f, "st": "error", "why": repr(e)}]
    if not ed:
        return []
    if os.environ.get("SINGLE"):     # every place by itself
        res = []
        for e in sorted(ed):
            st, why = judge(name, f, apply(s, [e]) + rest, slot)
            res.append({"name": name, "file": f, "n": 1, "line": s.count("\n", 0, e[0]) + 1, "st": st, "why": why})
        return res
    st, why = judge(name, f, apply(s, ed) + rest, slot)
    res = [{"name": name, "file": f, "n": len(ed), "st": st, "why": why}]
    if st == "nobuild" and len(ed) > 1:
        good = []
        # halves, then single places
        def rec(es):
            st, why = judge(name, f, apply(s, es) + rest, slot)
            if st == "nobuild":
                if len(es) > 1:
                    rec(es[:len(es) // 2])
                    rec(es[len(es) // 2:])
            else:
                res.append({"name": name, "file": f, "n": len(es), "line": s.count("\n", 0, es[0][0]) + 1, "st": st, "why": why})
        ed = sorted(ed)
        rec(ed[:len(ed) // 2])
        rec(ed[len(ed) // 2:])
    return res


def main():
    out = sys.argv[1]
    names = [k for k in RW if len(sys.argv) < 3 or any(k.startswith(a) for a in sys.argv[2:])]
    n = int(os.environ.get("J", "7"))
    os.makedirs(W, exist_ok=True)
    done = set()
    if os.path.exists(out):
        done = {(r["name"], r["file"]) for r in map(json.loads, open(out))}
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)

    def go(a):
        s = slots.get()
        try:
            return one(a[0], a[1], s)
        except Exception as e:
            return [{"name": a[0], "file": a[1], "st": "error", "why": repr(e)}]
        finally:
            slots.put(s)
    with cf.ThreadPoolExecutor(n) as ex, open(out, "a") as fo:
        for fut in cf.as_completed([ex.submit(go, (k, f)) for k in names for f in FILES if (k, f) not in done and f.startswith(os.environ.get("FILE", ""))]):
            for r in fut.result():
                fo.write(json.dumps(r) + "\n")
                fo.flush()


if __name__ == "__main__":
    main()
