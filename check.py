#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

Exit 0: it held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check itself could not give an answer (build failure, harness error).
"""
import glob, json, os, re, shutil, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(V, "mc")
TRACE = os.path.join(V, "trace")
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
WORK = os.path.join(V, "target", "run", PROP)
REPLAYS = os.path.join(V, "replays")


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("ERROR", msg)
    sys.stdout.flush()
    os._exit(2)


# ------------------------------------------------------------------ building
# checked: overflow checks and debug assertions on, std feature on.  plain: neither, std feature off.
VARIANTS = {
    "checked": (["--profile", "checked", "--features", "std"], "checked"),
    "plain": (["--release"], "release"),
    # the two mixed builds, used by C19 only
    "checked-nostd": (["--profile", "checked"], "checked"),
    "plain-std": (["--release", "--features", "std"], "release"),
}


def build(name):
    args, prof = VARIANTS[name]
    td = os.path.join(V, "target", name)
    # cargo goes by modification times; a source file put back with an old time would be missed
    for d in glob.glob(os.path.join(td, prof, ".fingerprint", "crypto-pure-*")):
        shutil.rmtree(d)
    env = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"] + args, cwd=MC, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log(p.stdout[-6000:])
        die(f"building variant {name} failed")
    return os.path.join(td, prof, "mc")


# ------------------------------------------------------------------ running the explorer
class Fail(Exception):
    def __init__(self, family, index, message, variant):
        self.family, self.index, self.message, self.variant = family, index, message, variant


def signal_name(rc):
    import signal
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return f"signal {-rc}"


HINT = {}  # binaries of other variants, for replay instructions


def explore(binary, variant, extra=(), prop=None):
    """Runs the explorer once; returns its report. Raises Fail for a failure of the library."""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, variant + ".json")
    jr = os.path.join(WORK, variant + ".journal")
    for f in (out, jr):
        if os.path.exists(f):
            os.remove(f)
    prop = prop or PROP
    base = [binary, prop, "--tier", TIER, "--variant", variant, *extra]
    cmd = base + ["--out", out, "--journal", jr]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode in (0, 1):
        r = json.load(open(out))
        if p.returncode == 1:
            f = r["failure"]
            raise Fail(f["family"], f["index"], f["message"], variant)
        return r
    if p.returncode == 3:
        m = re.search(r"^HANG (.*):(\d+) (.*)$", p.stdout, re.M)
        if not m:
            die("explorer ended with 3 without a HANG line")
        fam, idx = m.group(1), int(m.group(2))
        # alone, to be sure it was not the machine
        try:
            q = subprocess.run(base + ["--only", f"{fam}:{idx}"], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            raise Fail(fam, idx, "the call did not return (confirmed alone)", variant)
        if q.returncode == 1:
            raise Fail(fam, idx, "very slow and wrong", variant)
        die(f"{fam}:{idx} exceeded its time limit once but not when run alone")
    if p.returncode == 2:
        log(p.stdout[-4000:])
        die("harness error")
    # the process died: find the case
    sig = signal_name(p.returncode) if p.returncode < 0 else f"exit status {p.returncode}"
    raw = open(jr, "rb").read() if os.path.exists(jr) else b""
    for i in range(0, len(raw) - 15, 16):
        fam, idx = struct.unpack_from("<QQ", raw, i)
        if not fam:
            continue
        name = subprocess.run(base + ["--name-of", str(fam - 1)], stdout=subprocess.PIPE, text=True).stdout.strip()
        q = subprocess.run(base + ["--only", f"{name}:{idx}"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if q.returncode == 1:
            r = re.search(r"^FAIL .*", q.stdout, re.M | re.S)
            raise Fail(name, idx, r.group(0) if r else "fails", variant)
        if q.returncode not in (0, 2):
            raise Fail(name, idx, f"the process died ({sig}): {q.stderr[-300:]}", variant)
    log(p.stdout[-2000:], p.stderr[-2000:])
    die(f"the explorer died ({sig}) and no running case reproduces it alone")


# ------------------------------------------------------------------ results
def evidence(reports, wall, violations, assumptions, level="model_checking"):
    """Adds up the reports of the variants."""
    c = dict(states=0, transitions=0, traces_validated_against_impl=0, distinct_outcomes=0, samples=[], exhaustive=True, variants=[])
    for r in reports:
        c["states"] += r["states"]
        c["transitions"] += r["transitions"]
        c["traces_validated_against_impl"] += r["traces"]
        c["distinct_outcomes"] += r["outcomes"]
        c["exhaustive"] = c["exhaustive"] and not r["capped"] and all(f["explored"] == f["cases"] for f in r["families"])
        c["variants"].append({k: r[k] for k in ("variant", "secs", "states", "transitions", "traces", "outcomes", "counters", "covered", "families", "capped")})
        for s in r["samples"][:12]:
            if s not in c["samples"]:
                c["samples"].append(s)
    e = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=c, assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(V, "evidence", PROP + ".json"), "w"), indent=1)


def violation(f, reports):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, PROP + ".txt")
    bin_hint = HINT.get(f.variant) or f"target/{f.variant}/{VARIANTS[f.variant][1]}/mc"
    with open(path, "w") as o:
        o.write(f"property {PROP}\nvariant  {f.variant}\ncase     {f.family}:{f.index}\n\n{f.message}\n\n")
        o.write(f"replay (after a run of check.py, in {V}):\n  {bin_hint} {PROP} --tier {TIER} --variant {f.variant} --only '{f.family}:{f.index}'\n")
    log(f"[{f.variant}] {f.family}:{f.index}: {f.message}")
    evidence(reports, time.time() - T0, 1, ASSUME)
    log(f"VIOLATION property={PROP} replay={path}")
    sys.exit(1)


ASSUME = [
    "the executable references in mc/src/refs (written independently of the library; checked against published vectors at every start) state the standards",
    "the bounds listed per family: values outside the enumerated alphabets are not covered",
    "rustc 1.99.1 on x86-64; both builds of the library (overflow checks on with std, off without std) are explored",
]


def run_mc():
    vs = ("checked", "plain")
    bins = {v: build(v) for v in vs}
    reports, fails = [], []

    def one(v):
        try:
            return v, explore(bins[v], v), None
        except Fail as f:
            return v, None, f

    if PROP == "C21":  # mostly one long execution per build: run the builds side by side
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            results = list(ex.map(one, vs))
    else:
        results = map(one, vs)
    for v, r, f in results:
        if f:
            violation(f, reports)
        reports.append(r)
        log(f"[{v}] {r['traces']} executions compared, {r['states']} states, {r['transitions']} transitions, {r['secs']} s" + (" (capped)" if r["capped"] else ""))
    evidence(reports, time.time() - T0, 0, ASSUME)
    log(f"property {PROP} held on everything explored ({TIER})")


def main():
    if PROP == "C19":
        import checks.c19 as m
        m.run(sys.modules[__name__])
    elif PROP in ("C20", "C24", "C26"):
        import checks.trace as m
        m.run(sys.modules[__name__])
    elif PROP == "C27":
        import checks.port as m
        m.run(sys.modules[__name__])
    else:
        run_mc()


if __name__ == "__main__":
    sys.path.insert(0, V)
    sys.dont_write_bytecode = True
    main()
