"""C20 and C24: the checks that watch instrumented builds of the library from inside (crate /verif/trace)."""
import glob, os, re, shutil, subprocess

# name: (TRACE_MODE, cargo arguments, profile directory, what is run)
C20 = [
    ("cov-opt3-std", "cov", ["--release", "--features", "interpose,std"], "release", "C20"),
    ("cov-opt1-checked", "cov", ["--profile", "low", "--features", "interpose"], "low", "C20"),
    ("cov-opt0-checked", "cov", ["--profile", "dev0", "--features", "interpose,std"], "dev0", "C20-source"),
    ("machine-opt3", "", ["--release", "--features", "std"], "release", "C20-machine"),
]
C26 = [
    ("cov-opt3-std", "cov", ["--release", "--features", "interpose,std"], "release", "C26"),
    ("cov-opt1-checked", "cov", ["--profile", "low", "--features", "interpose"], "low", "C26"),
]
C24 = [
    ("tsan-debug-std", "tsan", ["--profile", "dev0", "--features", "std"], "dev0", "C24"),
]
C24_MORE = [
    ("tsan-opt3", "tsan", ["--release"], "release", "C24"),
]
ASSUME20 = [
    "instruction timing itself (variable-latency instructions, caches) is outside the statement: basic blocks and addresses are what is compared",
    "the builds of rustc 1.99.1 on x86-64 described per variant; the enumerated classes and contents",
    "a comparison by memcmp/bcmp is taken to look at bytes in order up to the first difference",
    "contents outside the enumerated alphabets are not covered; Ed25519 verification handles public values only and is not judged",
]
ASSUME24 = [
    "sequentially consistent interleavings of memory accesses of the library's code as compiled without optimisation; weak-memory reorderings are not explored",
    "code of the standard library that is not compiled together with the library runs between scheduling points",
    "calls, argument tuples and bounds as listed per family",
]
ASSUME26 = [
    "work is counted as basic blocks entered, memory accesses of the library's own code, calls of memcpy and friends, and the bytes these move; not as time",
    "linear means: from the work for 0 and 1024 bytes, no longer input takes more than half as much again per byte, plus one unit of 1024 bytes",
    "contents outside the enumerated alphabets are not covered",
]


def build(k, variant):
    name, mode, args, prof, _ = variant
    td = os.path.join(k.V, "target", "trace-" + (mode or "bare"))
    for d in glob.glob(os.path.join(td, prof, ".fingerprint", "crypto-pure-*")) + glob.glob(os.path.join(td, prof, ".fingerprint", "drv-*")):
        shutil.rmtree(d)
    # cargo does not know that the wrapper is part of the build
    stamp = os.path.join(td, "wrap.sh")
    wrap = open(os.path.join(k.TRACE, "wrap.sh")).read()
    if os.path.exists(td) and (not os.path.exists(stamp) or open(stamp).read() != wrap):
        shutil.rmtree(td)
    os.makedirs(td, exist_ok=True)
    open(stamp, "w").write(wrap)
    env = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE="true", TRACE_MODE=mode, RUSTC_WRAPPER=os.path.join(k.TRACE, "wrap.sh"))
    for x in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"):
        env.pop(x, None)
    if mode == "tsan":
        env["RUSTC_BOOTSTRAP"] = "1"
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"] + args, cwd=k.TRACE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        k.log(p.stdout[-6000:])
        k.die(f"building {name} failed")
    return os.path.join(td, prof, "trace")


def source(binary, message):
    """Adds source lines for the code offsets of a report."""
    m = re.search(r"^  PC (.*)$", message, re.M)
    if not m:
        return message
    q = subprocess.run(["addr2line", "-e", binary, "-f", "-i", "-C"] + m.group(1).split(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return message + "\n  code:\n" + "\n".join("    " + l for l in q.stdout.splitlines()[:40])


def run(k):
    variants = {"C20": C20, "C24": C24 + (C24_MORE if k.TIER == "thorough" else []), "C26": C26}[k.PROP]
    k.ASSUME[:] = {"C20": ASSUME20, "C24": ASSUME24, "C26": ASSUME26}[k.PROP]
    reports = []
    for v in variants:
        binary = build(k, v)
        extra = []
        scratch = os.path.join(k.WORK, "lackey")
        if v[4] == "C20-machine":
            os.makedirs(scratch, exist_ok=True)
            extra = ["--dir", scratch]
        k.HINT[v[0]] = binary
        try:
            r = k.explore(binary, v[0], extra, prop=v[4])
        except k.Fail as f:
            f.message = source(binary, f.message)
            k.violation(f, reports)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        reports.append(r)
        k.log(f"[{v[0]}] {r['traces']} executions, {r['states']} states, {r['transitions']} transitions, {r['secs']} s")
    k.evidence(reports, __import__("time").time() - k.T0, 0, k.ASSUME)
    k.log(f"property {k.PROP} held on everything explored ({k.TIER})")
