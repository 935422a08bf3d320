#!/usr/bin/env python3
"""Development: writes FAMILIES.md (every family of every check, its bounds and its size) from the evidence of quick runs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
out = ["# Families (quick tier)", "", "Generated by `tools/gen_families.py` from the evidence of a run on the unchanged tree. A family is an indexed finite set of",
       "executions, all of which are run. Where the builds differ, the first build's bounds and size are given.", ""]
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    e = json.load(open(f))
    if e["tier"] != "quick" or e["violations"]:
        raise SystemExit(f + " is not from a quick run on the unchanged tree")
    c = e["coverage"]
    out += [f"## {e['property']} {titles[e['property']]}", "",
            f"{c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} executions over {len(c['variants'])} builds ({', '.join(v['variant'] for v in c['variants'])}).", ""]
    if e["property"] == "C19":
        out += ["The families of C01 to C18 and C21 to C23, but for the long ones; see `c19` in mc/src/props/mod.rs.", ""]
        continue
    out += ["| family | bounds | cases |", "|---|---|---|"]
    seen = set()
    for v in c["variants"]:
        for x in v["families"]:
            if x["name"] in seen:
                continue
            seen.add(x["name"])
            out.append(f"| {x['name']} | {x['bounds'].replace('|', chr(92) + '|')} | {x['cases']} |")
    out.append("")
open(os.path.join(V, "FAMILIES.md"), "w").write("\n".join(out))
