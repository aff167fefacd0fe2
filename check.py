#!/usr/bin/env python3
"""Runs the check of one property: builds it from /repo's working tree, searches, reports.

  check.py run <property> [--tier quick|thorough] [--seed N] [--seconds S]
  check.py replay <replay file>
  check.py setup                 builds the simulator and everything the checks need
  check.py determinism <property> [--runs N]   each seed twice in different processes
  check.py list
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import simbuild  # noqa: E402
from registry import CHECKS, KNOWN_FILE, STUBS_COMMON, STUBS_MPI  # noqa: E402

JOBS = int(os.environ.get("SIM_JOBS", os.cpu_count() or 8))


def build(part):
    if part.get("dist"):
        return simbuild.build_dist_check(part["exe"], part["libs"], only=part.get("only"))
    return simbuild.build_shm_check(part["exe"], part["libs"], variant=part.get("variant", ()),
                                    only=part.get("only"))


def load_known(prop):
    """known_findings.jsonl: {"property","class","match","what"} or {"fixed": "..."}"""
    res = []
    try:
        with open(os.path.join(VERIF, KNOWN_FILE)) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k.get("property") == prop and "class" in k:
                        res.append(k)
    except OSError:
        pass
    return res


def run_part(prop, part, exe, seed, seconds, minimise, tmpdir, known):
    """Returns (rc, stats, violation line or None)."""
    out = os.path.join(tmpdir, "stats.json")
    repdir = os.path.join(VERIF, "replays")
    os.makedirs(repdir, exist_ok=True)
    rep = os.path.join(repdir, f"{prop}_{part['exe']}.json")
    first = 0
    deadline = time.time() + seconds
    stats = None
    for attempt in range(4):
        cmd = [exe, "batch", "--seed", str(seed), "--seconds", f"{max(3.0, deadline - time.time()):.1f}",
               "--jobs", str(JOBS), "--minimise", str(minimise), "--out", out, "--tmp",
               os.path.join(tmpdir, "w"), "--property", prop, "--replay-out", rep, "--first",
               str(first)]
        for k in known:
            cmd += ["--known", k["class"], k["match"]]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        lines = p.stdout.splitlines()
        print("\n".join(lines[-60:]), flush=True)
        try:
            with open(out) as f:
                stats = merge(stats, json.load(f))
        except (OSError, ValueError) as e:
            print("ERROR no statistics:", e)
            return 2, stats, None
        if p.returncode == 1:
            v = [l for l in lines if l.startswith("VIOLATION ")]
            return 1, stats, v[0] if v else None
        if p.returncode == 0:
            return 0, stats, None
        m = re.search(r"ERROR .* of run (\d+) does not reproduce", p.stdout)
        if not m:
            return 2, stats, None
        first = int(m.group(1)) + 1
        print(f"continuing after run {first - 1}", flush=True)
    return 2, stats, None


def merge(a, b):
    if a is None:
        return b
    r = dict(a)
    for k, v in b.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            r[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            r[k] = dict(a.get(k, {}))
            for kk, vv in v.items():
                r[k][kk] = r[k].get(kk, 0) + vv
        elif isinstance(v, list):
            r[k] = (a.get(k, []) + v)[:8]
        else:
            r[k] = v or a.get(k)
    return r


def cmd_run(prop, tier, seed, seconds=None):
    t0 = time.time()
    c = CHECKS[prop]
    parts = c["parts"]
    try:
        exes = [build(p) for p in parts]
    except simbuild.BuildError as e:
        print(e)
        print("ERROR build failed")
        return 2
    build_s = time.time() - t0
    total = seconds or c.get(tier, 20 if tier == "quick" else 600)
    share = sum(p.get("share", 1) for p in parts)
    minimise = 30 if tier == "quick" else 120
    tmpdir = tempfile.mkdtemp(prefix="simrun")
    known = load_known(prop)
    rc = 0
    stats = None
    violation = None
    per_part = {}
    try:
        for part, exe in zip(parts, exes):
            s = total * part.get("share", 1) / share
            r, st, v = run_part(prop, part, exe, seed, s, minimise, tmpdir, known)
            if st is not None:
                per_part[part["exe"]] = dict(runs=st["runs"], wall_s=st["wall_s"],
                                             ok=st["ok"], discards=st["discards"])
            stats = merge(stats, st) if st is not None else stats
            if r == 1:
                rc, violation = 1, v
                break
            rc = max(rc, r)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if stats is None:
        print("ERROR no statistics")
        return 2
    write_evidence(prop, c, tier, seed, stats, per_part, build_s, time.time() - t0,
                   1 if rc == 1 else 0)
    if rc == 0 and (stats["runs"] == 0 or stats["nontrivial"] == 0):
        print("ERROR nothing non-trivial was explored")
        return 2
    if rc == 2:
        print("ERROR of the machinery")
    return rc


def write_evidence(prop, c, tier, seed, st, per_part, build_s, wall, violations):
    hours = max(st["wall_s"], 1e-9) / 3600
    faults = {k[6:]: v for k, v in st["counters"].items() if k.startswith("fault:")}
    reach = {k: v for k, v in st["counters"].items() if not k.startswith("fault:")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": c["rule"] + " One evaluation is one simulated run (seed = f(VERIF_SEED, run "
                    "number)); runs are distinct if their event-log hashes differ.",
            "samples": st["samples"] or ["(none)"],
            "runs_completed": st["ok"], "discarded": st["discards"],
            "step_limit_without_verdict": st["steps_exceeded"], "wall_timeouts": st["timeouts"],
            "simulated_runs_per_hour": round(st["runs"] / hours),
            "seeds_per_hour": round(st["runs"] / hours),
            "simulated_time_s": st["sim_ns"] / 1e9,
            "scheduling_points": st["steps"], "context_switches": st["switches"],
            "preemptions_injected": st["preemptions"],
            "faults_injected": faults,
            "reach_probes": reach,
            "distinct_schedules": st["distinct_schedules"],
            "distinct_schedules_measure": "distinct hashes of the sequence of scheduling decisions",
            "distinct_workloads": st["distinct_cases"],
            "same_seed_twice_checked": st["determinism_checked"],
            "same_seed_twice_diverged": st["determinism_bad"],
            "known_finding_hits": st["known_classes"],
            "parts": per_part,
            "real_components": c["real"],
            "stubbed_components": STUBS_COMMON + (STUBS_MPI if c.get("dist") else []) + c.get("stubs", []),
            "search_wall_s": st["wall_s"], "build_wall_s": round(build_s, 1),
        },
        "assumptions": c.get("assumptions", []) + [
            "sequentially consistent interleavings: weak-memory reorderings are not simulated",
            "sampling: a clean batch is evidence, not proof"],
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def find_part(exe_name):
    for c in CHECKS.values():
        for p in c["parts"]:
            if p["exe"] == exe_name:
                return p
    raise SystemExit("unknown check " + exe_name)


def cmd_replay(path):
    with open(path) as f:
        r = json.load(f)
    exe = build(find_part(r["check"]))
    return subprocess.run([exe, "replay", path]).returncode


def cmd_determinism(prop, runs, seed):
    bad = 0
    for part in CHECKS[prop]["parts"]:
        exe = build(part)
        outs = []
        for _ in range(2):
            p = subprocess.run([exe, "determinism", "--seed", str(seed), "--runs", str(runs)],
                               stdout=subprocess.PIPE, text=True)
            outs.append(p.stdout.splitlines())
        d = sum(a != b for a, b in zip(*outs))
        print(f"{prop} {part['exe']}: {len(outs[0])} seeds twice, {d} differ")
        bad += d + (len(outs[0]) != len(outs[1]))
    return 1 if bad else 0


def opt(name, default):
    a = sys.argv
    return a[a.index(name) + 1] if name in a else default


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if cmd == "run":
        s = opt("--seconds", None)
        return cmd_run(sys.argv[2], tier, seed, float(s) if s else None)
    if cmd == "replay":
        return cmd_replay(sys.argv[2])
    if cmd == "determinism":
        return cmd_determinism(sys.argv[2], int(opt("--runs", "100")), seed)
    if cmd == "setup":
        try:
            simbuild.compile_all(simbuild.sim_jobs())
        except simbuild.BuildError as e:
            print(e)
            return 2
        return 0
    if cmd == "list":
        for k in CHECKS:
            print(k, [p["exe"] for p in CHECKS[k]["parts"]])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
