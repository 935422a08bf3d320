#!/usr/bin/env python3
"""Development tool: (re)creates /verif/seeded/<id>/ from the definitions in seeds_def.py.
usage: mkseeds.py [id...]   Each: applies the edits to a copy of /repo, writes patch.diff, demo.sh, demo.rs, meta.json."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds_def, seeds_def2, seeds_def3, seeds_def4, seeds_def5

DEMO_SH = '''#!/bin/bash
# Run with the repository as the working directory. Exit 0: the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
crypto-pure = { path = "$repo" }
[workspace]
[profile.dev]
%(dev)s
[profile.release]
%(rel)s
EOF
[ -f "$repo/Cargo.lock" ] && : # the demo resolves its own lock file offline
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$d" || exit 2
%(body)s
'''
BODY = {
    "release": "cargo build -q --offline --release || exit 2\ntimeout 250 ./target/release/demo",
    "debug": "cargo build -q --offline || exit 2\ntimeout 250 ./target/debug/demo",
    "both": "cargo build -q --offline && cargo build -q --offline --release || exit 2\n"
            "timeout 120 ./target/debug/demo > a.txt; ra=$?\ntimeout 120 ./target/release/demo > b.txt; rb=$?\n"
            "[ $ra = $rb ] && cmp a.txt b.txt",
}

def main():
    want = sys.argv[1:]
    for s in seeds_def.SEEDS:
        if want and s["id"] not in want:
            continue
        out = os.path.join(V, "seeded", s["id"])
        t = tempfile.mkdtemp(prefix="mkseed")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
            for f, old, new in s["edits"]:
                p = os.path.join(t, "r", f)
                x = open(p).read()
                if callable(old):
                    open(p, "w").write(old(x))
                    continue
                n = x.count(old)
                if n != 1:
                    print(s["id"], "edit matches", n, "times:", old[:80])
                    raise SystemExit(1)
                open(p, "w").write(x.replace(old, new))
            d = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE, text=True).stdout
        finally:
            shutil.rmtree(t)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(d)
        body = s.get("body") or BODY[s.get("mode", "release")]
        open(out + "/demo.sh", "w").write(DEMO_SH % dict(dev=s.get("dev", ""), rel=s.get("rel", ""), body=body))
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.rs", "w").write(s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
main()
