#!/usr/bin/env python3
"""run.py <property id>: builds what the check needs from /repo's working tree, runs the monitored
workloads, prints VIOLATION / KNOWN-FINDING lines and writes evidence/<id>.json."""
import hashlib
import json
import os
import re
import sys
import time

import vlib
from checks import CHECKS


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = CHECKS[pid]
    t0 = time.time()
    try:
        jobs = None
        progs = check["programs"](tier) if callable(check["programs"]) else check["programs"]
        exes = vlib.build(progs)
        build_s = time.time() - t0
        jobs = check["jobs"](exes, tier, seed)
        results = vlib.run_jobs(jobs)
    except vlib.HarnessError as e:
        print("HARNESS-ERROR %s" % e)
        return 2

    evaluations = 0
    sigs = set()
    samples = []
    observed = {}
    inconclusive = []
    errors = []
    viol = {}
    keep = check.get("only")
    for r in results:
        for rep in r.reports:
            evaluations += rep["evaluations"]
            sigs.update(rep["sigs"])
            for s in rep["samples"]:
                if len(samples) < 12 and s not in samples:
                    samples.append(s[:400])
            for k, v in rep["observed"].items():
                observed[k] = observed.get(k, 0) + v
        inconclusive += r.inconclusive
        if r.error:
            errors.append((r.job.name, r.error))
        for v in r.violations:
            if keep and not re.match(keep, v["key"]):
                inconclusive.append("not this property's: " + v["key"])
                continue
            viol.setdefault(v["key"], (r, v))

    # A null-page crash of exactly one of all the processes: the very same workload again, many times
    # (DESIGN.md, "A crash that never came back"). Any recurrence is reported.
    crashed = [r for r in results if r.violations]
    if len(crashed) == 1 and not crashed[0].job.np and viol and all(k.startswith("san:SEGV") for k in viol):
        again = vlib.run_jobs([crashed[0].job] * 24)
        if not any(r.violations for r in again):
            for k in sorted(viol):
                inconclusive.append("crash of %s did not recur in %d repetitions: %s\n%s" % (crashed[0].job.name, len(again), k, crashed[0].log[-6000:]))
            viol = {}

    known = json.load(open(os.path.join(vlib.VERIF, "known-findings.json")))
    matched, fresh = set(), []
    for key in sorted(viol):
        r, v = viol[key]
        hit = None
        for k in known["findings"]:
            if k["property"] == pid and re.fullmatch(k["key"], key) and re.search(k.get("detail", ""), v["detail"], re.S):
                hit = k
        if hit:
            matched.add(json.dumps(hit, sort_keys=True))
        else:
            fresh.append((key, r, v))
    # listed findings are reported on every run, also when this seed did not reach them
    for k in known["findings"]:
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    out = []
    rdir = os.path.join(vlib.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for key, r, v in fresh:
        path = os.path.join(rdir, "%s-%s.txt" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("property %s\nkey %s\n\n%s\n\ncommand (np=%d): %s\nenv: %s\n" % (
                pid, key, v["detail"], r.job.np, " ".join(r.job.argv), r.job.env))
            m = re.search(r"case=(\d+)", v["detail"])
            if m:
                f.write("single case: add --case=%s\n" % m.group(1))
            f.write("\nlog (tail):\n%s\n" % r.log[-6000:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s" % (key, v["detail"][:2500].replace("\n", "\n  ")))
        print("  command (np=%d): %s" % (r.job.np, " ".join(r.job.argv)))
        if len(out) == 0:
            print("  log (tail): %s" % r.log[-3000:].replace("\n", "\n  "))
        out.append({"key": key, "detail": v["detail"][:600], "replay": path})

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": check["rule"], "samples": samples},
        "observed": observed, "processes": len(results), "inconclusive": inconclusive,
        "build_s": round(build_s, 1), "wall_s": round(time.time() - t0, 1), "violations": len(out), "violation_list": out,
    }
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        return 1
    if errors:
        print("HARNESS-ERROR %s: %s" % errors[0])
        return 2
    missing = [k for k in check.get("need", []) if observed.get(k, 0) <= 0]
    if missing or not sigs:
        print("HARNESS-ERROR nothing observed for: %s" % (missing or "any non-trivial case"))
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (pid, evaluations, len(sigs), time.time() - t0, build_s))
    for i in inconclusive:
        print("  inconclusive: " + i)
    return 0


if __name__ == "__main__":
    sys.exit(main())
