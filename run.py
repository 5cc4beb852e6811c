#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property by exhaustive enumeration (see DESIGN.md).  Exit 0: it held on everything explored;
exit 1 with a VIOLATION line: it did not.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 "
                 "--xla_llvm_disable_expensive_passes=true intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}
BUDGET = {"quick": 560.0, "thorough": 6600.0}
STALL_S = 300.0


def meta():
    with open(os.path.join(HERE, "mc", "registry.json")) as f:
        return json.load(f)


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("status") == "known" and e["property"] == prop:
                    out.append(e)
    return out


def child_env():
    env = dict(os.environ)
    env.update(ENV)
    env["PYTHONPATH"] = HERE
    return env


def cpus():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if args.replay:
        return subprocess.call([PYTHON, "-B", "-m", "mc.replay", args.replay],
                               cwd=HERE, env=child_env())
    info = meta()[prop]
    t0 = time.time()
    budget = args.budget or info.get("budget", {}).get(tier, BUDGET[tier])
    deadline = t0 + budget
    orders = info.get("orders", ["asc"])
    n = args.workers or cpus()
    shards = max(1, n // len(orders))
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    procs = []
    try:
        for o in orders:
            for s in range(shards):
                out = os.path.join(tmp, f"{o}-{s}.json")
                log = open(out + ".log", "wb")
                p = subprocess.Popen(
                    [PYTHON, "-B", "-m", "mc.harness", prop, tier, str(seed), str(s), str(shards),
                     o, str(deadline), out],
                    cwd=HERE, env=child_env(), stdout=log, stderr=subprocess.STDOUT)
                procs.append((p, out, o))
        violations, results, broken = [], [], []
        pending = list(procs)
        seen = {}
        while pending:
            time.sleep(0.1)
            still = []
            for p, out, o in pending:
                rc = p.poll()
                prog = out + ".progress"
                if rc is None:
                    m = os.path.getmtime(prog) if os.path.exists(prog) else t0
                    if time.time() - max(m, seen.get(out, 0)) > STALL_S:
                        p.kill()
                        p.wait()
                        violations.append({"case": last_case(prog), "order": o,
                                           "what": f"no progress for {STALL_S} s"})
                        continue
                    still.append((p, out, o))
                    continue
                if rc == 0 and os.path.exists(out):
                    results.append(json.load(open(out)))
                    violations += results[-1]["violations"]
                    continue
                tail = open(out + ".log", "rb").read()[-3000:].decode("utf-8", "replace")
                case = last_case(prog)
                if case is None or rc > 0:
                    # the worker catches whatever a case raises: this is not the implementation's doing
                    broken.append(tail)
                    continue
                violations.append({"case": case, "order": o,
                                   "what": f"the process died (exit status {rc}): {tail}"})
            pending = still
        if broken and not violations:
            print(f"{prop}: {len(broken)} workers failed\n{broken[0]}")
            return 2
        return report(prop, tier, seed, info, results, violations, time.time() - t0, len(procs))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def last_case(path):
    try:
        return json.loads(open(path).read())[1]
    except Exception:
        return None


def report(prop, tier, seed, info, results, violations, wall, workers):
    known = known_findings(prop)
    fresh, matched = [], {}
    for v in violations:
        for k in known:
            if json.loads(json.dumps(v["case"])) == k["case"]:
                matched[k["id"]] = k
                break
        else:
            fresh.append(v)
    fams = {}
    for r in results:
        for k, c in r["families"].items():
            fams[k] = fams.get(k, 0) + c
    counters = {}
    for r in results:
        for k, c in r["counters"].items():
            counters[k] = counters.get(k, 0) + c
    samples = [s for r in results for s in r["samples"]][:6]
    complete = bool(results) and all(r["complete"] for r in results) and len(results) == workers
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "samples": samples or [v["case"] for v in violations][:3] or ["none"],
            "exhaustive": complete,
            "cases": sum(r["taken"] for r in results),
            "cases_by_family": fams,
            "counters": counters,
            "refused_by_jax": sum(r["refused"] for r in results),
            "outside_the_modelled_domain": sum(r["outside"] for r in results),
            "symbol_order_controlled": all(r["ordered"] for r in results),
            "bounds": info["bounds"][tier] if isinstance(info["bounds"], dict) else info["bounds"],
            "meaning": info["meaning"],
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in matched.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    c = evidence["coverage"]
    print(f"{prop} {tier}: {c['cases']} cases, {c['states']} states, {c['transitions']} transitions, "
          f"exhaustive={complete}, {wall:.1f} s")
    if not fresh:
        if not results:
            print("no worker finished")
            return 2
        return 0
    fresh.sort(key=lambda v: len(json.dumps(v["case"])))
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "violations": fresh[:20]}, f, indent=1)
    for v in fresh[:3]:
        print(f"  {json.dumps(v['case'])[:400]}\n    {str(v['what'])[-600:]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
