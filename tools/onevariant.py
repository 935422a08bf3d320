"""Development only: onevariant.py C20|C24 <variant name> [explorer arguments]: one instrumented build alone."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, want, rest = sys.argv[1], sys.argv[2], sys.argv[3:]
sys.argv = ["check.py", prop, "quick"]
sys.path.insert(0, V)
import check as k
import checks.trace as m
for v in m.C20 + m.C20_MORE + m.C24 + m.C24_MORE if hasattr(m, "C20_MORE") else m.C20 + m.C24 + m.C24_MORE:
    if v[0] == want:
        b = m.build(k, v)
        os.makedirs("/tmp/lackey1", exist_ok=True)
        r = subprocess.run([b, v[4], "--tier", "quick", "--variant", want, "-v"] + (["--dir", "/tmp/lackey1"] if "machine" in v[4] else []) + rest, stdout=subprocess.PIPE, text=True)
        print(m.source(b, r.stdout)[-5000:], "rc", r.returncode)
