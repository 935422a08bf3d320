"""C19: every build observes the same thing on every case."""
import os, subprocess, time

BUILDS = ("checked", "plain", "checked-nostd", "plain-std")


def run(k):
    bins = {b: k.build(b) for b in BUILDS}
    reports, obs = [], {}
    for b in BUILDS:
        path = os.path.join(k.WORK, b + ".obs")
        os.makedirs(k.WORK, exist_ok=True)
        try:
            r = k.explore(bins[b], b, extra=("--obs", path))
        except k.Fail as f:
            alone(k, bins, f.family, f.index, reports, f.message)
            k.die(f"{f.family}:{f.index} breaks every build alike ({f.message}); no comparison possible")
        if r["capped"]:
            k.die("observation run was capped")
        reports.append(r)
        obs[b] = open(path).read()
        os.remove(path)
        k.log(f"[{b}] {r['traces']} executions observed, {r['secs']} s")
    base = BUILDS[0]
    for b in BUILDS[1:]:
        if obs[b] == obs[base]:
            continue
        x, y = obs[base].splitlines(), obs[b].splitlines()
        if len(x) != len(y):
            k.die("builds observed different numbers of cases")
        for p, q in zip(x, y):
            if p != q:
                fam, idx, _ = p.rsplit(" ", 2)
                alone(k, bins, fam, int(idx), reports, f"builds {base} and {b} differ")
                k.die(f"{fam}:{idx} differed between {base} and {b} but not when run alone")
    k.evidence(reports, time.time() - k.T0, 0, k.ASSUME)
    import json
    path = os.path.join(k.V, "evidence", k.PROP + ".json")
    e = json.load(open(path))
    e["coverage"]["cases_compared_between_builds"] = obs[base].count("\n") * (len(BUILDS) - 1)
    json.dump(e, open(path, "w"), indent=1)
    k.log(f"property C19 held on everything explored ({k.TIER}): {obs[base].count(chr(10))} cases, {len(BUILDS)} builds")


def alone(k, bins, fam, idx, reports, why):
    """Runs one case alone in every build; a violation if they do not all observe the same."""
    res = {}
    for b in BUILDS:
        try:
            p = subprocess.run([bins[b], k.PROP, "--tier", k.TIER, "--only", f"{fam}:{idx}", "--obs", os.devnull],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=150)
            line = [l for l in p.stdout.splitlines() if l.startswith("OBS ")]
            res[b] = (line[0].split()[1], line[0][:1500]) if p.returncode == 0 and line else (f"exit {p.returncode}", f"exit status {p.returncode}")
        except subprocess.TimeoutExpired:
            res[b] = ("no answer", "no answer within 150 s")
    if len({h for h, _ in res.values()}) > 1:
        msg = why + "\n" + "\n".join(f"  {b:14} {m}" for b, (_, m) in res.items())
        k.violation(k.Fail(fam, idx, msg, BUILDS[0]), reports)
