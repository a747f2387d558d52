#!/usr/bin/env python3
"""mutate.py OUT.jsonl [file-prefix...] : small syntactic changes of /repo's live source, one at a time, against all checks.

What no check reports is listed for reading: either the change breaks no property, or a check is too weak."""
import json
import os
import re
import shutil
import subprocess
import sys
import concurrent.futures as cf
import queue

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = os.environ.get("SELFTEST_DIR", "/tmp/mutants")
FILES = ["batch_tokenize.rs", "main.rs", "optimize.rs", "optimize_bytes.rs", "processing.rs", "stats2.rs", "tokenizer2.rs", "tokenset.rs",
         "input/file_sampler.rs", "input/memory_sampler.rs", "input/sample.rs", "input/util.rs"]
ORDER = "C01 C02 C03 C05 C09 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C31 C33 C07 C06 C08 C13 C27 C30 C12 C29 C04 C14 C15 C16 C10 C28 C11 C34 C35 C36 C37 C38 C39 C40 C41 C42 C44".split()

SWAP = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" && ", " || "), (r" \|\| ", " && "),
        (r" \+= ", " = "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" - 2\b", " - 1"), (r"\.\.=", ".."), (r"\.\.(?=[\w(])", "..="),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"if !", "if "), (r"\bif (?!let)(?=[a-z])", "if !"),
        (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bmin\(", "std::cmp::max("), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"),
        (r">> ", "<< "), (r"& ", "| "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"lowercase", "uppercase"), (r"uppercase", "lowercase"),
        (r"\.is_empty\(\)", ".len() == 1"), (r"Less", "Greater"), (r"Greater", "Less"), (r"\.rev\(\)", ""), (r"\.reverse\(\)", ".sort()"), (r"token_counts", "seq_counts"),
        (r"seq_counts", "token_counts"), (r"itoken1", "itoken2"), (r"itoken2", "itoken1"), (r"new_token_set", "token_set"), (r"new_tokenset", "tokenset"),
        (r"filename_raw", "filename"), (r"filename\b", "filename_raw"), (r"new_stats", "stats"), (r"processed_data", "Some(data.as_str())"), (r"total_tokens", "scanned_bytes"),
        (r"scanned_bytes", "total_tokens"), (r"get_stats_with_pairs", "get_stats"), (r"get_stats\b", "get_stats_with_pairs"), (r"self\.ntokens\(\)", "self.n_long_tokens()"),
        (r"ntokens\(\)", "n_long_tokens()"), (r"Some\(initial_size\)", "None"), (r"input_token_set", "None"), (r"\binitial_size\b", "None"), (r"other\.", "self."), (r"tokens\.len\(\)", "sequences.len()"),
        (r"\.retain\(", ".dedup_by_key("), (r"sort_by_key", "sort_by_cached_key"), (r"Raw", "CapsWords"), (r"CapsWords", "Raw"), (r"Bits1", "Bits2"), (r"Bits2", "Bits4"), (r"Bits4", "Bits1"), (r"\bBytes\b", "BytesHuff"),
        (r"\\x14", r"\\x15"), (r"\\x15", r"\\x14"), (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"\.unwrap\(\);", ".ok();"), (r"\)\?;", ").ok();"), (r"is_alphabetic", "is_alphanumeric"),
        (r"\.clear\(\)", ".len()"), (r"\.truncate\(", ".split_off("), (r"read_until\(10", "read_until(13"), (r"\.last\(\)", ".first()"), (r"Ext", "Str"), (r"\.pop\(\)", ".first().cloned()"),
        (r"position == ", "position != "), (r"lo\b", "top"), (r"\btop\b", "lo"), (r"split_paragraphs\)", "split_paragraphs == false)"), (r"end\b", "pos"), (r"start\b", "0")]


def mutants():
    out = []
    for f in FILES:
        lines = open(os.path.join("/repo/src", f)).read().split("\n")
        stop = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
        for i in range(stop):
            l = lines[i]
            st = l.strip()
            if not st or st.startswith(("//", "use ", "#[", "println!", "print!", "dbg!", "mod ", "pub mod", "///")):
                continue
            seen = set()
            code = l.split("//")[0]
            for a, b in SWAP:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():]
                    if n != l and n not in seen:
                        seen.add(n)
                        out.append((f, i, l, n))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                for d in (1, -1):
                    v = int(m.group(1)) + d
                    if v >= 0:
                        n = code[:m.start()] + str(v) + code[m.end():]
                        if n not in seen:
                            seen.add(n)
                            out.append((f, i, l, n))
            if st.endswith(";") and not st.startswith(("let ", "return", "}", "pub ", "const ")) and st.count("(") == st.count(")") and st.count("{") == st.count("}"):
                out.append((f, i, l, "/* gone */"))
            # swap two arguments / swap with the next statement
            m = re.search(r"\((\w+), (\w+)\)", code)
            if m and m.group(1) != m.group(2):
                out.append((f, i, l, code[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + code[m.end():]))
            if i + 1 < stop and st.endswith(";") and lines[i + 1].strip().endswith(";") and len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()):
                out.append((f, i, l, None))
    return out


def one(k, mut, slot):
    f, i, old, new = mut
    src, bld = os.path.join(W, "src%d" % slot), os.path.join(W, "bld%d" % slot)
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree("/repo", src, ignore=shutil.ignore_patterns("target", ".git"))
    p = os.path.join(src, "src", f)
    lines = open(p).read().split("\n")
    if new is None:
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
        new = "swapped with: " + lines[i]
    else:
        lines[i] = new
    open(p, "w").write("\n".join(lines))
    env = dict(os.environ, VERIF_REPO=src, VERIF_BUILD=bld, SA_NOEVIDENCE="1")
    if not os.path.exists(os.path.join(bld, "drv")):
        os.makedirs(bld, exist_ok=True)
        shutil.copytree(os.path.join(ROOT, ".build", "drv"), os.path.join(bld, "drv"), symlinks=True)
    r = subprocess.run([sys.executable, os.path.join(ROOT, "sa", "build.py")], env=env, capture_output=True, text=True)
    res = {"k": k, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
    if r.returncode:
        res["st"] = "nobuild"
        return res
    dump = os.path.join(bld, "dump.json")
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "checkall.py"), dump] + ORDER, env=dict(env, FIRST="1"), capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        res["st"] = "timeout"
        return res
    if r.returncode:
        last = r.stdout.strip().splitlines()[-1:] or ["BAD ? " + r.stderr[-200:]]
        res["st"], res["by"], res["why"] = "caught", last[0].split()[1], last[0][8:]
        return res
    res["st"] = "survived"
    return res


def main():
    out = sys.argv[1]
    ms = [m for m in mutants() if len(sys.argv) < 3 or any(m[0].startswith(a) for a in sys.argv[2:])]
    if os.environ.get("AGAIN"):      # only what an earlier run left over
        left = {(r["file"], r["old"], r["new"]) for r in map(json.loads, open(os.environ["AGAIN"])) if r["st"] == "survived"}
        ms = [m for m in ms if (m[0], m[2].strip(), (m[3] or "").strip()) in left or m[3] is None and any(a == m[0] and b == m[2].strip() for a, b, _ in left)]
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(out))}
    n = int(os.environ.get("J", "7"))
    os.makedirs(W, exist_ok=True)
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)

    def go(a):
        k, m = a
        if m[3] is not None and (m[0], m[1] + 1, m[3].strip()) in done:
            return None
        s = slots.get()
        try:
            return one(k, m, s)
        except Exception as e:
            return {"k": k, "file": m[0], "line": m[1] + 1, "old": m[2], "new": m[3] or "", "st": "error " + str(e)}
        finally:
            slots.put(s)
    with cf.ThreadPoolExecutor(n) as ex, open(out, "a") as fo:
        for fut in cf.as_completed([ex.submit(go, a) for a in enumerate(ms)]):
            r = fut.result()
            if r:
                fo.write(json.dumps(r) + "\n")
                fo.flush()


if __name__ == "__main__":
    main()
