#!/usr/bin/env python3
"""mutate.py's survivors against the explorer (development only): judge.py SURV.json OUT.json [workers]

Every worker has its own copy of /repo and of mc/ (path dependency rewritten).  A mutant is killed by the first
property of its file's list that fails (or hangs, or crashes) in either build."""
import json, os, shutil, subprocess, sys, queue, concurrent.futures as cf

REL = {
    "aes.rs": ["C06", "C17"], "chacha20.rs": ["C08", "C17", "C09", "C21"], "gcm.rs": ["C07", "C10", "C11", "C17", "C21"],
    "ghash.rs": ["C07", "C22", "C11"], "hkdf.rs": ["C05", "C17", "C22"], "hmac.rs": ["C03", "C04", "C22", "C17"],
    "poly1305.rs": ["C09", "C11", "C10", "C17", "C21"], "sha2.rs": ["C01", "C02", "C17"], "util.rs": ["C23", "C04", "C11"],
    "curve25519.rs": ["C12", "C16", "C14", "C13", "C17"], "ed25519.rs": ["C14", "C16", "C15", "C17"], "const_curve25519.rs": ["C14", "C15"],
}
VAR = [("checked", ["--profile", "checked", "--features", "std"], "checked"), ("plain", ["--release"], "release")]
VAR = [v for v in VAR if v[0] in os.environ.get("JUDGE_VARIANTS", "checked,plain").split(",")]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 4

def setup(k):
    d = "/tmp/mut/j%d" % k
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    shutil.rmtree(d + "/mc", ignore_errors=True)
    shutil.copytree(os.environ.get("JUDGE_MC", "/verif/mc"), d + "/mc", ignore=shutil.ignore_patterns("target"))
    p = d + "/mc/Cargo.toml"
    t = open(p).read().replace('"/repo"', '"%s/repo"' % d)
    open(p, "w").write(t)
    return d

def judge(d, m):
    p = "%s/repo/src/%s" % (d, m["file"])
    text = open("/repo/src/" + m["file"]).read()
    L = text.split("\n")
    assert L[m["line"]] == m["old"], m
    L[m["line"]] = m["new"]
    open(p, "w").write("\n".join(L))
    try:
        for v, args, prof in VAR:
            env = dict(os.environ, CARGO_TARGET_DIR="%s/t" % d)
            r = subprocess.run(["cargo", "build", "--offline", "-q"] + args, cwd=d + "/mc", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return "build " + v
            for prop in REL[m["file"]]:
                try:
                    r = subprocess.run(["%s/t/%s/mc" % (d, prof), prop, "--tier", "quick", "--variant", v, "--threads", os.environ.get("JT", "2")],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600, text=True, errors="replace")
                except subprocess.TimeoutExpired:
                    return "timeout %s %s" % (prop, v)
                if r.returncode:
                    return "%s %s rc=%d %s" % (prop, v, r.returncode, r.stdout.strip()[-160:])
        return None
    finally:
        open(p, "w").write(text)

def main():
    ms = json.load(open(sys.argv[1]))
    free = queue.Queue()
    for k in range(N):
        free.put(setup(k))
    alive, dead = [], []
    def go(m):
        d = free.get()
        try:
            return m, judge(d, m)
        finally:
            free.put(d)
    with cf.ThreadPoolExecutor(N) as ex:
        for i, (m, r) in enumerate(ex.map(go, ms)):
            (dead if r else alive).append(dict(m, killed=r))
            if not r:
                print("ALIVE", m["id"], m["file"], m["line"] + 1, m["what"], "|", m["new"].strip()[:90] or "DEL " + m["old"].strip(), flush=True)
            elif r.startswith("build") or "rc=2" in r:
                print("ODD", m["id"], m["file"], m["line"] + 1, r[:100], flush=True)
            if i % 20 == 0:
                print("--", i, "of", len(ms), "alive", len(alive), flush=True)
                json.dump({"alive": alive, "dead": dead}, open(sys.argv[2], "w"), indent=0)
    json.dump({"alive": alive, "dead": dead}, open(sys.argv[2], "w"), indent=0)
main()
