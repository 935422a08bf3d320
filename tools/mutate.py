#!/usr/bin/env python3
"""Mutation campaign (development only; no registered check uses it).

  mutate.py gen  OUT.json            every mutant of /repo/src (one token or one statement), as JSON
  mutate.py test OUT.json SURV.json  run the repository's own tests on each; keep the survivors
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf

SRC = "/repo/src"
SMALL = ["aes.rs", "chacha20.rs", "gcm.rs", "ghash.rs", "hkdf.rs", "hmac.rs", "poly1305.rs", "sha2.rs", "util.rs"]
BIG = ["curve25519.rs", "ed25519.rs"]

OPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" \^ ", [" | ", " & "]), (r" & ", [" | ", " ^ "]),
    (r" \| ", [" & ", " ^ "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" < ", [" <= ", " > "]),
    (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != ", " >= ", " <= "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \^= ", [" |= ", " &= ", " = "]),
    (r" &= ", [" |= "]), (r" \|= ", [" &= ", " ^= "]), (r"wrapping_add", ["wrapping_sub"]), (r"rotate_left", ["rotate_right"]),
    (r"rotate_right", ["rotate_left"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.=", [".."]),
    (r" % ", [" / "]), (r" / ", [" % "]), (r"BigEndian::write", ["byteorder::LittleEndian::write"]), (r"!sc_", ["sc_"]),
    (r"ge_add", ["ge_sub"]), (r"ge_sub", ["ge_add"]), (r"ge_madd", ["ge_msub"]), (r"ge_msub", ["ge_madd"]),
    (r"\.rev\(\)", [""]),
]

def mutants(fname):
    lines = open(os.path.join(SRC, fname)).read().split("\n")
    out = []
    for n, line in enumerate(lines):
        if line.startswith("#[cfg(test)]"):
            break
        s = line.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("//!"):
            continue
        code = line.split("//")[0]
        if fname == "sha2.rs" and re.match(r"^\s*0x[0-9a-f_]+,$", code):
            m = re.search(r"0x[0-9a-f_]+", code)
            v = m.group(0)
            last = v[-1]
            out.append((n, line, code.replace(v, v[:-1] + "%x" % (int(last, 16) ^ 1)), "const"))
            continue
        is_sig = bool(re.match(r"\s*(pub(\(crate\))? )?(fn|impl|struct|trait|macro_rules!|const|type)\b", code))
        if not is_sig:
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        out.append((n, line, code[:m.start()] + r + code[m.end():], pat.strip() + "->" + r.strip()))
        if not is_sig or "const" in code:
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]*\w)", code):
                t = m.group(0)
                try:
                    v = int(t.replace("_", ""), 0)
                except ValueError:
                    continue
                for w in {v + 1, v - 1 if v else None, v ^ 0x80 if v > 255 else None} - {None}:
                    out.append((n, line, code[:m.start()] + str(w) + code[m.end():], "%s->%d" % (t, w)))
        if s.endswith(";") and not s.startswith("let ") and not s.startswith("}") and not is_sig and "(" + s.count(")") * "" is not None \
           and code.count("(") == code.count(")"):
            out.append((n, line, "", "delete"))
    res = []
    for n, old, new, what in out:
        if fname in BIG and what not in ("delete",) and not re.search(r"<<|>>|==|!=|<|>|\+=|-=|&=|\|=|wrapping|true|false|ge_", what) \
           and not re.search(r"\d+->\d+", what):
            continue
        res.append({"file": fname, "line": n, "old": old, "new": new, "what": what})
    return res

def gen(out):
    ms = []
    for f in SMALL + BIG:
        k = mutants(f)
        print(f, len(k))
        ms += k
    # one limb of every precomputed point
    t = open(os.path.join(SRC, "const_curve25519.rs")).read().split("\n")
    k = 0
    for n, line in enumerate(t):
        nums = list(re.finditer(r"-?\d[\d_]*", line.split("//")[0])) if re.search(r"^\s*[-\d\[]", line) else []
        if nums:
            m = nums[0]
            v = int(m.group(0).replace("_", ""))
            ms.append({"file": "const_curve25519.rs", "line": n, "old": line, "new": line[:m.start()] + str(v + 1) + line[m.end():], "what": "table"})
            k += 1
    print("table", k)
    for i, m in enumerate(ms):
        m["id"] = i
    json.dump(ms, open(out, "w"), indent=0)

def worker_dir(k):
    d = "/tmp/mut/w%d" % k
    if not os.path.isdir(d):
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
    return d

def run_one(args):
    k, ms = args
    d = worker_dir(k)
    surv = []
    for m in ms:
        p = os.path.join(d, "src", m["file"])
        text = open(os.path.join(SRC, m["file"])).read()
        L = text.split("\n")
        assert L[m["line"]] == m["old"]
        L[m["line"]] = m["new"]
        open(p, "w").write("\n".join(L))
        try:
            r = subprocess.run("cargo test --offline -q --lib", shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 99
        if rc == 0:
            surv.append(m)
        open(p, "w").write(text)
    return surv

def test(inp, out, n=8):
    ms = json.load(open(inp))
    chunks = [[] for _ in range(n * 40)]
    for i, m in enumerate(ms):
        chunks[i % len(chunks)].append(m)
    surv = []
    import queue
    with cf.ThreadPoolExecutor(n) as ex:
        free = queue.Queue()
        for i in range(n):
            free.put(i)
        def go(c):
            k = free.get()
            try:
                return run_one((k, c))
            finally:
                free.put(k)
        done = 0
        for s in ex.map(go, chunks):
            surv += s
            done += 1
            if done % 8 == 0:
                print("chunk %d/%d survivors %d" % (done, len(chunks), len(surv)), flush=True)
                json.dump(surv, open(out, "w"), indent=0)
    json.dump(surv, open(out, "w"), indent=0)

if sys.argv[1] == "gen":
    gen(sys.argv[2])
else:
    test(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 8)
