#!/opt/venv/bin/python
"""Runs one property's check: plans jobs, runs them in fresh worker processes,
merges what they covered, writes the evidence file and reports.

usage: run.py ID [--tier quick|thorough] | run.py --replay FILE
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get("ASTA_REPO", "/repo")
PY = sys.executable or "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", 0)) or min(8, os.cpu_count() or 4)
LIMIT = {"quick": 780, "thorough": 6 * 3600}

DEFAULT_CONFIG = {
    "on": "yes",
    "raise-errors": "yes",
    "print-passes": "yes",
    "check-non-asta-types": "no",
    "check-all-sequence-elements": "yes",
}


def known_findings(prop):
    """Keys listed as ``finding: property=<id> key=<key> <what fails>``."""
    found = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                if line.startswith(f"finding: property={prop} key="):
                    rest = line.split(" key=", 1)[1].rstrip("\n")
                    key, _, what = rest.partition(" ")
                    found[key] = what
    return found


def worker_env(job, scratch, seed):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL")}
    path = [ROOT, REPO]
    if "torch" in job.get("backend", "np"):
        path.insert(0, os.path.join(ROOT, "mc", "fake_torch"))
    env.update(
        PYTHONPATH=":".join(path),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=str(job.get("hashseed", 0)),
        HOME=os.path.join(scratch, "home"),
        TMPDIR=scratch,
        TF_CPP_MIN_LOG_LEVEL="3",
        TF_ENABLE_ONEDNN_OPTS="0",
        CUDA_VISIBLE_DEVICES="-1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TF_NUM_INTRAOP_THREADS="1",
        TF_NUM_INTEROP_THREADS="1",
        VERIF_SEED=str(seed),
    )
    env.update(job.get("env", {}))
    return env


def start(job, base, index, seed):
    scratch = os.path.join(base, f"w{index}")
    os.makedirs(os.path.join(scratch, "home"))
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd)
    config = job.get("config", {})
    if config is not None:
        with open(os.path.join(cwd, ".astarc"), "w") as handle:
            handle.write("[MASTER]\n\n")
            for key, value in {**DEFAULT_CONFIG, **config}.items():
                handle.write(f"{key}={value}\n")
    job["out"] = os.path.join(scratch, "out.json")
    job["scratch"] = scratch
    job["repo"] = REPO
    job_path = os.path.join(scratch, "job.json")
    with open(job_path, "w") as handle:
        json.dump(job, handle)
    err = open(os.path.join(scratch, "stderr"), "w")
    out = open(os.path.join(scratch, "stdout"), "w")
    proc = subprocess.Popen(
        [PY, "-B", os.path.join(ROOT, "mc", "worker.py"), job_path],
        cwd=cwd,
        env=worker_env(job, scratch, seed),
        stdin=subprocess.DEVNULL,
        stdout=out,
        stderr=err,
        start_new_session=True,
    )
    out.close()
    err.close()
    return proc, scratch


def kill(proc):
    try:
        os.killpg(proc.pid, 9)
    except ProcessLookupError:
        pass
    proc.wait()


def run_jobs(jobs, base, seed, deadline, stop_early=True):
    """Runs every job; returns (results, problem)."""
    pending = list(enumerate(jobs))
    running = {}
    results = [None] * len(jobs)
    problem = None
    stop = False
    while (pending and not stop) or running:
        while pending and not stop and len(running) < WORKERS:
            index, job = pending.pop(0)
            running[index] = (start(job, base, index, seed), job)
        time.sleep(0.02)
        late = time.time() > deadline
        for index in list(running):
            (proc, scratch), job = running[index]
            if proc.poll() is None:
                if late:
                    kill(proc)
                    problem = f"time limit reached in job {index} {job.get('name')}"
                    del running[index]
                    stop = True
                continue
            del running[index]
            try:
                os.killpg(proc.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            if os.path.exists(job["out"]):
                with open(job["out"]) as handle:
                    results[index] = json.load(handle)
                if results[index]["violations"] and stop_early:
                    stop = True
            else:
                with open(os.path.join(scratch, "stderr")) as handle:
                    err = handle.read()[-3000:]
                problem = f"worker for job {index} {job.get('name')} died:\n{err}"
                stop = True
            shutil.rmtree(scratch, ignore_errors=True)
        if stop and results and any(r and r["violations"] for r in results if r):
            for index in list(running):
                kill(running.pop(index)[0][0])
    return results, problem


def merge(results):
    total = {"numbers": {}, "outcomes": {}, "samples": [], "violations": [], "known": set(), "notes": []}
    states = {}
    for res in results:
        if not res:
            continue
        states.update(res["numbers"].pop("_states", {}))
        for key, value in res["numbers"].items():
            total["numbers"][key] = total["numbers"].get(key, 0) + value
        for key, value in res["outcomes"].items():
            total["outcomes"][key] = total["outcomes"].get(key, 0) + value
        for sample in res["samples"]:
            if len(total["samples"]) < 12:
                total["samples"].append(sample)
        total["violations"].extend(res["violations"])
        total["known"].update(res["known"])
        for note in res["notes"]:
            if note not in total["notes"]:
                total["notes"].append(note)
    if states:
        total["numbers"]["states"] = total["numbers"].get("states", 0) + len(states)
    return total


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = importlib.import_module(f"mc.checks.{prop.lower()}")
    begin = time.time()
    jobs = check.jobs(tier)
    known = known_findings(prop)
    for job in jobs:
        job["known"] = sorted(known)
        job["check"] = prop.lower()
        job["tier"] = tier
    base = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        results, problem = run_jobs(jobs, base, seed, begin + LIMIT[tier])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    total = merge(results)

    fresh, hit = total["violations"], total["known"]

    coverage = dict(total["numbers"])
    coverage["samples"] = total["samples"]
    coverage["outcomes"] = dict(sorted(total["outcomes"].items()))
    coverage["exhaustive"] = problem is None and not fresh
    coverage["rule"] = check.RULE
    coverage["bounds"] = check.bounds(tier)
    coverage["jobs"] = len(jobs)
    if total["notes"]:
        coverage["notes"] = total["notes"]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": check.LEVEL,
        "coverage": coverage,
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.time() - begin, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as handle:
        json.dump(evidence, handle, indent=1, default=str)
        handle.write("\n")

    print(f"{prop} {tier}: {total['numbers']} outcomes={coverage['outcomes']}")
    for key in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    if fresh:
        fresh.sort(key=lambda v: len(json.dumps(v["case"])))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}.json")
        with open(path, "w") as handle:
            json.dump({"property": prop, **fresh[0], "others": fresh[1:20]}, handle, indent=1)
            handle.write("\n")
        print(f"  {fresh[0]['message']}")
        print(f"  case: {json.dumps(fresh[0]['case'])[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problem:
        print(problem, file=sys.stderr)
        return 2
    return 0


def replay(path):
    """Decides the recorded case again, in a fresh worker with the same set-up."""
    with open(path) as handle:
        record = json.load(handle)
    job = dict(record["job"])
    job["replay"] = record["case"]
    base = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        results, problem = run_jobs([job], base, 1, time.time() + 600)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if problem:
        print(problem)
        return 2
    for violation in results[0]["violations"]:
        print("reproduced:", violation["message"])
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
