#!/usr/bin/env python3
"""
Run one check:  run.py C06 [--tier quick|thorough] [--replay FILE]

Starts worker processes that drive the real code in /repo under the workload of the property,
observe it, and decide it against the oracle.  Exit 0: held on everything observed.  Exit 1 with a
VIOLATION line: broken.  Any other exit: inconclusive.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("RV_PYTHON", "/opt/venv/bin/python")
sys.path.insert(0, HERE)


def load_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("RV_WORKERS", "8")))
    args = ap.parse_args()
    cap = float(os.environ.get("RV_CAP", "600" if args.tier == "quick" else "7200"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"rv_{args.prop}_")
    try:
        code = drive(args, cap, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


# checks of which half of the cases run under python -O, without asserts
OPTIMISED = {"C26"}


def drive(args, cap, scratch, t0):
    n = 1 if args.replay else args.workers
    optimised = {i for i in range(n) if i % 2 and args.prop in OPTIMISED}
    if args.replay and json.load(open(args.replay)).get("optimised"):
        optimised = {0}
    procs = []
    for i in range(n):
        out = os.path.join(scratch, f"w{i}.jsonl")
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            RV_SCRATCH=os.path.join(scratch, f"s{i}"),
            PYTHONPATH=HERE,
        )
        os.makedirs(env["RV_SCRATCH"], exist_ok=True)
        cmd = [PY, *(["-O"] if i in optimised else []), os.path.join(HERE, "worker.py"), args.prop, args.tier, args.seed, str(i), str(n), out, str(cap)]
        if args.replay:
            cmd.append(os.path.abspath(args.replay))
        log = open(os.path.join(scratch, f"w{i}.log"), "w")
        procs.append(
            (subprocess.Popen(cmd, env=env, cwd=scratch, stdout=log, stderr=log), out, log.name)
        )
    errors = []
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1.0, cap + 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker timed out")
            continue
        if p.returncode != 0:
            tail = open(log).read()[-1500:]
            errors.append(f"worker exited with {p.returncode}: {tail}")
    counts, sigs, samples, violations, layers = {}, set(), [], [], {}
    meta, total, done, slowest = {}, 0, 0, []
    for _, out, _ in procs:
        if not os.path.exists(out):
            continue
        for line in open(out):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r["kind"] == "meta":
                meta = r
                total = r["total"]
            elif r["kind"] == "case":
                done += 1
                slowest.append((r["seconds"], r.get("sample") or r.get("case")))
                for k, v in r["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                sigs.update(r["sigs"])
                for k, v in r["layers"].items():
                    layers[k] = layers.get(k, 0) + v
                if len(samples) < 6 and r.get("sample") and done % 7 == 1:
                    samples.append(r["sample"])
                for v in r["violations"]:
                    violations.append((r["case"], dict(v, optimised=bool(r.get("optimised")))))
            elif r["kind"] == "error":
                errors.append(r["msg"])
    findings = load_findings()
    new, known = [], {}
    for case, v in violations:
        for f in findings:
            if f["property"] == args.prop and v.get("mech") and f.get("mech") == v["mech"]:
                known.setdefault(f["mech"], [f, 0])[1] += 1
                break
        else:
            new.append((case, v))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    status = "violated" if new else "held"
    for f in findings:
        if f["property"] == args.prop:
            hits = known.get(f["mech"], [f, 0])[1]
            print(f"KNOWN-FINDING: property={args.prop} {f['what']} (observed {hits} times)")
    missing = {k: m for k, m in meta.get("minima", {}).items() if counts.get(k, 0) < m}
    code = 0
    if new:
        code = 1
    elif errors or done < total * 0.98 or (missing and not args.replay):
        code = 3
        status = "inconclusive"
    if not args.replay:
        evidence = {
            "property": args.prop,
            "tier": args.tier,
            "seed": int(args.seed) if str(args.seed).isdigit() else 0,
            "level": "exploration",
            "coverage": {
                "evaluations": int(counts.get("evaluations", 0)),
                "distinct_nontrivial": len(sigs),
                "rule": meta.get("rule", ""),
                "samples": samples or [{"note": "no samples"}],
                "cases": done,
                "monitor_counters": dict(sorted(counts.items())),
                "observed_layer_calls": dict(sorted(layers.items())),
            },
            "wall_s": round(time.time() - t0, 2),
            "status": status,
        }
        with open(os.path.join(HERE, "evidence", f"{args.prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1, default=str)
    if new:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (case, v) in enumerate(new[:20]):
            path = os.path.join(rd, f"{args.prop}-{i}.json")
            with open(path, "w") as fh:
                json.dump(
                    {"property": args.prop, "case": case, "violation": v, "optimised": v.get("optimised")}, fh, indent=1
                )
            if i < 5:
                print(f"  {v['msg']}")
                print(f"    in {json.dumps(case, default=str)[:700]}")
            if i == 0:
                print(f"VIOLATION property={args.prop} replay={path}")
        print(f"{len(new)} violations in {done} cases")
    if code == 3:
        print(f"INCONCLUSIVE: {done}/{total} cases, counters below minimum: {missing}")
        for e in errors[:3]:
            print("  ", e[-1500:])
    if os.environ.get("RV_SLOWEST"):
        for seconds, case in sorted(slowest, key=lambda c: -c[0])[:5]:
            print(f"  {seconds}s {json.dumps(case, default=str)[:900]}")
    print(
        f"{args.prop} {status}: {done} cases, {counts.get('evaluations', 0)} evaluations, "
        f"{len(sigs)} distinct, {time.time() - t0:.1f}s"
    )
    return code


if __name__ == "__main__":
    main()
