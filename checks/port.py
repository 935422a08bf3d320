"""C27: the same cases natively, as 32-bit WebAssembly without the standard library, and interpreted for big-endian machines."""
import glob, json, os, re, shutil, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor

SHARDS = 8
MIRI = {  # name: (target, what it is)
    "big-endian-32": "powerpc-unknown-linux-gnu",
    "big-endian-64": "s390x-unknown-linux-gnu",
}
ASSUME = [
    "the native build (64-bit, little-endian, std) is the yardstick; what it computes is judged by the other properties",
    "WebAssembly as run by node stands for 32-bit machines, and Miri's powerpc (and s390x) for big-endian ones: endianness, word size and the missing standard library are theirs, other differences between machines are not covered",
    "the enumerated cases; Miri is slow, so the big-endian machines get fewer of them",
]


def env(k, **more):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **more)
    for x in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_BOOTSTRAP", "MIRI_SYSROOT", "MIRIFLAGS", "CARGO_BUILD_TARGET"):
        if x not in more:
            e.pop(x, None)
    return e


def forget(td):
    """cargo goes by modification times; a source file put back with an old time would be missed"""
    for d in glob.glob(os.path.join(td, "**", ".fingerprint", "crypto-pure-*"), recursive=True):
        shutil.rmtree(d)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)


def vendor(k):
    """A source directory with byteorder and with what the standard library itself is built from."""
    root = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    lib = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    mine = glob.glob(os.path.expanduser(os.environ.get("CARGO_HOME", "~/.cargo") + "/registry/src/*/byteorder-1.4.3"))
    if not os.path.isdir(lib) or not mine:
        k.die("the standard library's sources, or byteorder's, are not there")
    v = os.path.join(k.V, "target", "port", "vend")
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(v)
    for d in os.listdir(lib):
        os.symlink(os.path.join(lib, d), os.path.join(v, d))
    d = os.path.join(v, "byteorder-1.4.3")
    if os.path.lexists(d):
        return v
    shutil.copytree(mine[0], d)
    lock = open(os.path.join(k.V, "port", "wasm", "Cargo.lock")).read()
    sum_ = re.search(r'name = "byteorder"\nversion = "1.4.3"\nsource = .*\nchecksum = "(\w+)"', lock).group(1)
    json.dump(dict(files={}, package=sum_), open(os.path.join(d, ".cargo-checksum.json"), "w"))
    return v


def failed(k, what, p, reports):
    """A build failed. It is the library's fault if the library is what did not compile: the native build did."""
    text = p.stdout + p.stderr
    if re.search(r"could not compile `crypto-pure`", text):
        k.HINT[what] = f"(build for {what}; see checks/port.py)"
        k.violation(k.Fail("build", 0, f"the library builds natively but not for {what}:\n{text[-3000:]}", what), reports)
    k.log(text[-6000:])
    k.die(f"building for {what} failed")


def run(k):
    port = os.path.join(k.V, "port")
    tgt = os.path.join(k.V, "target", "port")
    work = k.WORK
    os.makedirs(work, exist_ok=True)
    thorough = k.TIER == "thorough"
    reports = []

    # ---- the native build
    td = os.path.join(tgt, "host")
    forget(td)
    p = sh(["cargo", "build", "--offline", "--locked", "-q", "--release", "--features", "std"], cwd=os.path.join(port, "host"), env=env(k, CARGO_TARGET_DIR=td))
    if p.returncode:
        k.log(p.stderr[-6000:])
        k.die("the native build failed")
    host = os.path.join(td, "release", "port-host")

    # ---- WebAssembly
    vend = vendor(k)
    wasm = {}
    for name, prof in (("wasm32", "release"), ("wasm32-checked", "checked")):
        td = os.path.join(tgt, "wasm")
        forget(td)
        p = sh(["cargo", "+nightly", "build", "--offline", "--locked", "-q", "--profile", prof, "-Zbuild-std=core,alloc", "--target", "wasm32-unknown-unknown",
                "--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{vend}"'],
               cwd=os.path.join(port, "wasm"), env=env(k, CARGO_TARGET_DIR=td))
        if p.returncode:
            failed(k, name, p, reports)
        wasm[name] = os.path.join(td, "wasm32-unknown-unknown", prof, "port_wasm.wasm")
    node = ["node", "--stack-size=8000", os.path.join(port, "wasm", "run.js")]

    # ---- Miri
    opt = "-Zmir-opt-level=3 -Zinline-mir=yes"  # a quarter faster
    flags = "-Zmiri-disable-validation -Zmiri-disable-stacked-borrows " + opt
    def miri(target):
        td = os.path.join(tgt, "miri-" + target)
        e = env(k, CARGO_TARGET_DIR=td, XDG_CACHE_HOME=os.path.join(tgt, "cache-" + target), MIRIFLAGS=flags, RUSTFLAGS=opt)
        return td, e, ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--release", "--target", target, "--"]
    machines = dict(MIRI) if thorough else {"big-endian-32": MIRI["big-endian-32"]}
    def setup(name):
        td, e, cmd = miri(machines[name])
        os.makedirs(e["XDG_CACHE_HOME"], exist_ok=True)
        forget(td)
        p = sh(["cargo", "+nightly", "miri", "setup", "--offline", "--target", machines[name]], cwd=os.path.join(port, "host"), env=e)
        if p.returncode:
            k.log((p.stdout + p.stderr)[-4000:])
            k.die("cargo miri setup failed")
        # builds, and runs nothing
        p = sh(cmd + ["0", "0", "list"], cwd=os.path.join(port, "host"), env=e)
        return name, p
    with ThreadPoolExecutor(4) as ex:
        for name, p in list(ex.map(setup, machines)):
            if p.returncode:
                failed(k, name, p, reports)

    # ---- one group of cases on one machine, compared with the native run
    def families(level, long):
        out = []
        for l in sh([host, str(level), str(long), "list"]).stdout.splitlines():
            n, c, b = l.split(" ", 2)
            out.append((n, int(c), b))
        return out

    known = {}
    def native(level, long):
        if (level, long) not in known:
            with ThreadPoolExecutor(SHARDS) as ex:
                ps = list(ex.map(lambda s: sh([host, str(level), str(long), str(s), str(SHARDS)], timeout=800), range(SHARDS)))
            known[level, long] = [lines(k, p, "the native build") for p in ps]
        return known[level, long]

    def group(name, level, long):
        t = time.time()
        fams = families(level, long)
        names = ",".join(f[0] for f in fams)
        want = native(level, long)

        def command(args):
            if name in wasm:
                return node + [wasm[name], str(level), str(long), *args, names], None, env(k)
            td, e, cmd = miri(machines[name])
            return cmd + [str(level), str(long), *args], os.path.join(port, "host"), e

        def case(fam, idx, why):
            """Runs one case alone on both; a violation if they differ."""
            a = sh([host, str(level), str(long), "only", fam, str(idx)])
            cmd, cwd, e = command(["only", fam, str(idx)])
            try:
                b = sh(cmd, timeout=200, cwd=cwd, env=e)
                same = b.returncode == 0 and a.stdout.split("\n")[0] == b.stdout.split("\n")[0]
                said = b.stdout if b.returncode == 0 else f"exit status {b.returncode}: {b.stderr[-1500:]}"
            except subprocess.TimeoutExpired:
                same, said = False, "no answer within 200 s"
            if a.returncode:
                k.die(f"the native build cannot run {fam}:{idx} alone: {a.stderr[-500:]}")
            if not same:
                pa, pb = a.stdout.split("\n"), said.split("\n")
                msg = f"{why}\n  {pa[1] if len(pa) > 1 else ''}\n  native    {'panics' if pa[0] == 'P' else pa[0] + ' ' + pa[2]}\n  {name}    " + ("panics" if pb[0] == "P" else " ".join([pb[0]] + pb[2:3]) if len(pb) > 2 else said)
                k.HINT[name] = "cd port/host && env " + " ".join(f"'{x}={e[x]}'" for x in ("CARGO_TARGET_DIR", "XDG_CACHE_HOME", "MIRIFLAGS", "RUSTFLAGS") if x in e) + " " + " ".join(cmd) + "   # "
                k.violation(k.Fail(fam, idx, msg, name), reports)
            k.die(f"{fam}:{idx} on {name}: {why}, but not when run alone")

        def shard(s):
            mark = os.path.join(work, f"{name}.{s}.mark")
            cmd, cwd, e = command([str(s), str(SHARDS)])
            try:
                return sh(cmd, timeout=3000 if thorough else 500, cwd=cwd, env=dict(e, MARK=mark))
            except subprocess.TimeoutExpired as x:
                return x

        with ThreadPoolExecutor(SHARDS) as ex:
            ps = list(ex.map(shard, range(SHARDS)))
        n = 0
        seen = set()
        for s, p in enumerate(ps):
            got = (p.stdout or b"" if isinstance(p, subprocess.TimeoutExpired) else p.stdout)
            if isinstance(got, bytes):
                got = got.decode(errors="replace")
            got = got.splitlines()
            for x, y in zip(want[s], got):
                if x != y:
                    f, i, _ = x.split(" ")
                    case(f, int(i), f"the native build and {name} differ")
                n += 1
                seen.add(x.rsplit(" ", 1)[1])
            if isinstance(p, subprocess.TimeoutExpired) or p.returncode or len(got) != len(want[s]):
                # where did it stop?
                if name in wasm:
                    raw = open(os.path.join(work, f"{name}.{s}.mark"), "rb").read()
                    if len(raw) == 16:
                        f, i = struct.unpack("<QQ", raw)
                        case(fams[f][0], i, f"{name} did not finish")
                elif len(got) < len(want[s]) - 1:
                    f, i, _ = want[s][len(got)].split(" ")
                    case(f, int(i), f"{name} did not finish")
                k.log(getattr(p, "stderr", "")[-3000:] if not isinstance(p, subprocess.TimeoutExpired) else "timeout")
                k.die(f"{name}: shard {s} did not finish")
        n -= SHARDS  # the END lines
        secs = round(time.time() - t, 1)
        k.log(f"[{name}] {n} cases agree with the native build, {secs} s")
        reports.append(dict(variant=name + ("-long" if long else ""), secs=secs, states=n, transitions=2 * n, traces=n, outcomes=len(seen),
                            counters={}, covered=[], families=[dict(name=f, bounds=b, cases=c, explored=c, traces=c, states=c, secs=0) for f, c, b in fams],
                            samples=[f"{name}: {l}" for l in want[0][:3] + want[0][-4:-1]], capped=False))

    lv = 3 if thorough else 2
    for name in wasm:
        group(name, lv, 0)
    group("wasm32", lv, 1)
    for name in machines:
        group(name, 1 if thorough else 0, 0)
    k.evidence(reports, time.time() - k.T0, 0, ASSUME)
    k.log(f"property {k.PROP} held on everything explored ({k.TIER})")


def lines(k, p, what):
    l = p.stdout.splitlines()
    if p.returncode or not l or l[-1] != f"END {len(l) - 1}":
        k.log(p.stderr[-2000:])
        k.die(f"{what} did not finish")
    return l
