#!/usr/bin/env python3
"""Runs the check of one property: bin/check.py C05 [--tier quick|thorough] [--seed N]
   Replays a saved failure:       bin/check.py C05 --replay replays/C05-....json
"""
import argparse, json, os, subprocess, sys, tempfile, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpbuild
from specs import SPECS, ASSUME

VERIF = vpbuild.VERIF
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

def findings(pid):
    """lines:  known: property=<id> probe=<harness>:<variant>:<probe> <what fails>"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            f = line.split(None, 3)
            if f[1] == "property=" + pid:
                out.append((f[2][len("probe="):], f[3]))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", help="only runs of this harness:variant prefix")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    spec = SPECS[a.pid]

    if a.replay:
        r = json.load(open(a.replay))
        exe = vpbuild.build_harness(r["harness"], r["variant"])
        with tempfile.NamedTemporaryFile("w", suffix=".choices") as f:
            f.write(" ".join(map(str, r["choices"]))); f.flush()
            cmd = [exe, "--replay", f.name]
            for k, v in r.get("params", {}).items():
                cmd += ["--param", "%s=%s" % (k, v)]
            p = subprocess.run(cmd)
        sys.exit(1 if p.returncode == 1 else p.returncode)

    t0 = time.time()
    budget = 700.0 if tier == "quick" else 3600.0
    runs, violation, total = [], None, dict(evaluations=0, distinct=0)
    rules, samples = [], []
    known = []
    for probe, what in findings(a.pid):
        h, v, name = probe.split(":")
        exe = vpbuild.build_harness(h, v)
        p = subprocess.run([exe, "--probe", name], stdout=subprocess.PIPE, text=True)
        shows = p.stdout.startswith("SHOWS")
        known.append(dict(probe=probe, what=what, shows=shows))
        if shows:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, what), flush=True)
    for r in spec["runs"]:
        if a.only and not (r["h"] + ":" + r["v"]).startswith(a.only):
            continue
        cases = int((r["q"] if tier == "quick" else r["t"]) * a.scale)
        if cases <= 0:
            continue
        exe = vpbuild.build_harness(r["h"], r["v"])
        left = budget - (time.time() - t0)
        limit = max(20.0, min(left / 2, r.get("limit", 240 if tier == "quick" else 1500)))
        fd, out = tempfile.mkstemp(prefix="vp-out-", suffix=".json"); os.close(fd)
        cmd = [exe, "--seed", str(a.seed + r.get("salt", 0)), "--cases", str(cases), "--workers", str(r.get("workers", 8)),
               "--limit", "%.0f" % limit, "--hang", str(r.get("hang", 40)), "--out", out,
               "--repro", str(r.get("repro", 3)), "--attempts", str(r.get("attempts", 3))]
        for k, v in r.get("params", {}).items():
            cmd += ["--param", "%s=%s" % (k, v)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode not in (0, 1):
            sys.stderr.write(p.stdout[-2000:] + p.stderr[-2000:])
            sys.stderr.write("check: harness %s ended with %d\n" % (r["h"], p.returncode))
            sys.exit(2)
        d = json.load(open(out)); os.unlink(out)
        runs.append(dict(harness=r["h"], variant=r["v"], params=r.get("params", {}), requested=cases, evaluations=d["evaluations"],
                         nontrivial=d["nontrivial"], distinct_nontrivial=d["distinct_nontrivial"], edges=d["edges"],
                         corpus=d["corpus"], classes=d["labels"], wall_s=d["wall"], unreproduced=d["unreproduced"]))
        total["evaluations"] += d["evaluations"]; total["distinct"] += d["distinct_nontrivial"]
        if d["rule"] not in rules: rules.append(d["rule"])
        samples += d["samples"][:3]
        for u in d["unreproduced"]:
            sys.stderr.write("check: not reproduced, not counted: %s\n" % u[:400])
        if d["failed"]:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            tag = hashlib.sha256(json.dumps(d["choices"]).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s-%s-%s.json" % (a.pid, r["h"], r["v"], tag))
            with open(path, "w") as f:
                json.dump(dict(property=a.pid, harness=r["h"], variant=r["v"], params=r.get("params", {}), seed=a.seed,
                               message=d["message"], trace=d["trace"].splitlines(), stderr=d["stderr"].splitlines()[:60],
                               choices=d["choices"], shrunk_from=d["original_choices"],
                               replay="python3 bin/check.py %s --replay %s" % (a.pid, path)), f, indent=1)
            violation = (path, d["message"], d["trace"])
            break
    ev = dict(property=a.pid, tier=tier, seed=a.seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"], rule=" | ".join(rules),
                            samples=samples[:6], runs=runs, known_findings=known),
              assumptions=spec.get("assumptions", []) + ASSUME, wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", a.pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", a.pid + ".json"))
    if violation:
        print("%s: %s" % (a.pid, violation[1]))
        print(violation[2])
        print("VIOLATION property=%s replay=%s" % (a.pid, violation[0]))
        sys.exit(1)
    nt = total["distinct"]
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (a.pid, total["evaluations"], nt, time.time() - t0))
    sys.exit(0)

if __name__ == "__main__":
    main()
