"""One check: a seeded search over simulated runs, evidence and replay files."""
import collections
import json
import os
import re
import subprocess
import sys

from dst import env, forks
from dst.shrink import outcome_of, shrink
from dst.util import rng_for

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 100

# scenarios per check: (quick, thorough)
SIZES = {
    "default": (2000, 60000),
    "C05": (1600, 30000),
    "C06": (1000, 24000),
    "C07": (1000, 24000),
    "C10": (480, 8000),
    "C17": (3000, 60000),
    "C18": (1200, 24000),
    "C21": (3000, 60000),
}


def scenario(prop, seed, i):
    from dst import lanes

    sc = lanes.make_scenario(prop, rng_for(seed, prop, i))
    # exactly what a replay file holds
    return json.loads(json.dumps(sc))


def job(arg):
    prop, seed, i = arg
    return outcome_of((prop, scenario(prop, seed, i)))


def load_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("open", [])


def matches(finding, prop, rule, message):
    return (
        finding["property"] == prop
        and finding["rule"] == rule
        and re.search(finding["message"], message) is not None
    )


def write_replay(prop, seed, index, sc, info):
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{seed}-{index}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "index": index, **info,
                   "scenario": sc}, f, indent=1)
    return path


def replay(path):
    """Run a replay file; exit code 1 and a VIOLATION line if it fails."""
    with open(path) as f:
        doc = json.load(f)
    res = forks.run_one(outcome_of, (doc["property"], doc["scenario"]),
                        cpu_limit=CPU_LIMIT)
    if res.status == "cpu" and doc["property"] == "C08":
        val = {"rule": "no-termination", "message": "CPU limit", "digest": "cpu"}
    elif res.status != "ok":
        print(f"ERROR replay ended with {res.status}: {res.value}")
        return 2
    else:
        val = res.value
    print(f"replay: rule={val['rule']} digest={val['digest']} "
          f"recorded={doc.get('digest')}")
    if val["rule"] is None:
        print("no violation")
        return 0
    print(val["message"])
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def fresh_replay(path, jit=False):
    """Replay in a fresh interpreter; returns (exit code, output)."""
    p = subprocess.run(
        [sys.executable, os.path.join(ROOT, "check.py"), "--replay", path],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ROOT,
        env={**os.environ, "PYTHONHASHSEED": "random", "DST_JIT": "1" if jit else "0"},
        timeout=600,
    )
    return p.returncode, p.stdout.decode(errors="replace")


def run(prop, tier, seed, n=None, workers=None, jit=False, wall_cap=None):
    t0 = env.real_time()
    quick = tier == "quick"
    if n is None:
        n = SIZES.get(prop, SIZES["default"])[0 if quick else 1]
    workers = workers or min(8, os.cpu_count() or 1)
    wall_cap = wall_cap or (420.0 if quick else 3 * 3600.0)
    print(f"check {prop} tier={tier} VERIF_SEED={seed} scenarios={n} workers={workers}")
    sys.stdout.flush()

    findings = load_findings()
    tot = collections.Counter()
    fired, probes, lanes_c = (collections.Counter() for _ in range(3))
    sim_time = 0.0
    digests, seen_schedules = set(), set()
    bad, known, problems = {}, collections.Counter(), []
    by_index = {}
    slow = 0.0

    def stop():
        return bool(bad) or env.real_time() - t0 > wall_cap

    # every 40th scenario runs a second time in another process: determinism self-check
    check_every = 40
    jobs = []
    for i in range(n):
        jobs.append((("run", i), (prop, seed, i)))
        if i % check_every == 0:
            jobs.append((("again", i), (prop, seed, i)))
    again = {}
    for res in forks.run_jobs(jobs, job, workers=workers, cpu_limit=CPU_LIMIT,
                              wall_limit=420, stop=stop):
        what, i = res.key
        slow = max(slow, res.cpu)
        tot["cpu_ms"] += int(1000 * res.cpu)
        if res.status == "cpu" and prop == "C08":
            res.status = "ok"
            res.value = {
                "rule": "no-termination", "digest": "cpu",
                "message": f"the run did not end within {CPU_LIMIT} s of CPU time",
                "outcome": {"runs": 1, "evals": 0, "sim_time": 0.0, "fired": {},
                            "probes": {}, "digests": [], "schedule": []},
            }
        if res.status != "ok":
            if res.status in ("cpu", "wall"):
                tot["inconclusive"] += 1
            else:
                tot["harness_errors"] += 1
                problems.append(f"scenario {i}: {res.status}: {res.value}")
            continue
        val = res.value
        if what == "again":
            again[i] = val["digest"]
            continue
        by_index[i] = val["digest"]
        o = val["outcome"]
        tot["scenarios"] += 1
        tot["runs"] += o["runs"]
        tot["evals"] += o["evals"]
        sim_time += o["sim_time"]
        fired.update(o["fired"])
        probes.update(o["probes"])
        lanes_c[scenario(prop, seed, i)["lane"]] += 1
        digests.update(o["digests"])
        seen_schedules.add(val["digest"])
        if o["evals"] > 1 and (o["fired"] or o["runs"] > 1):
            tot["nontrivial"] += 1
        if val["rule"] is not None:
            hit = [f for f in findings if matches(f, prop, val["rule"], val["message"])]
            if hit:
                known[hit[0]["what"]] += 1
            else:
                bad[i] = val

    unequal = [i for i, d in again.items() if i in by_index and by_index[i] != d]
    if unequal and not bad:
        if prop == "C06":
            i = min(unequal)
            bad[i] = {"rule": "not-reproducible", "digest": by_index[i],
                      "message": "two processes produced different executions"}
        else:
            problems.append(f"not deterministic: scenarios {unequal[:5]}")
            tot["nondeterministic"] = len(unequal)

    for f in findings:
        if f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")

    code = 0
    violations = []
    if bad:
        i = min(bad)
        code, violations = report(prop, tier, seed, i, bad[i], workers)
    wall = env.real_time() - t0
    evidence(prop, tier, seed, n, wall, tot, fired, probes, lanes_c, sim_time, digests,
             seen_schedules, violations, known, problems, len(again), len(unequal),
             slow, jit)
    print(
        f"{tot['scenarios']} scenarios, {tot['runs']} simulated runs, "
        f"{tot['evals']} evaluations, {sum(fired.values())} faults, "
        f"{len(digests)} distinct executions, {wall:.1f} s"
    )
    for p in problems[:5]:
        print("ERROR " + p)
    if code == 0 and (tot["harness_errors"] or tot["scenarios"] == 0):
        return 2
    return code


def report(prop, tier, seed, i, val, workers):
    sc = scenario(prop, seed, i)
    print(f"scenario {i} (lane {sc['lane']}): {val['rule']}: {val['message']}")
    sys.stdout.flush()
    small, steps, tried = sc, 0, 0
    if val["rule"] != "no-termination":
        small, steps, tried = shrink(
            prop, sc, val["rule"], budget=60.0 if tier == "quick" else 300.0,
            workers=workers, cpu_limit=CPU_LIMIT,
        )
    res = forks.run_one(outcome_of, (prop, small), cpu_limit=CPU_LIMIT)
    final = res.value if res.status == "ok" and res.value["rule"] else val
    path = write_replay(prop, seed, i, small, {
        "rule": final["rule"], "message": final["message"], "digest": final["digest"],
        "shrink": {"steps": steps, "tried": tried}, "original": sc,
        "how": "python check.py --replay <this file>",
    })
    code, out = fresh_replay(path)
    same = code == 1 and f"digest={final['digest']} " in out
    print(f"minimised in {steps} steps ({tried} candidates); replay in a fresh process: "
          + ("identical" if same else "fails too" if code == 1 else "DIFFERS"))
    print(f"{final['rule']}: {final['message']}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1, [{"rule": final["rule"], "message": final["message"][:500],
                "index": i, "replay": path, "replay_identical": same}]


RULES = {
    "default": "one scenario = a problem, options, worker pool schedule and fault list "
    "drawn from hash(VERIF_SEED, property, index); it is non-trivial if it evaluated "
    "more than one point and at least one fault or scheduling disturbance fired (or it "
    "compares several runs); distinct = different digest over every evaluation, "
    "completion order and result",
}

REAL = [
    "everything below /repo/src/tranquilo (options, sampling, fitting, aggregation, "
    "subproblem solvers, acceptance, radius, history, criterion wrapper, termination) "
    "with NUMBA_DISABLE_JIT=1",
    "estimagic.batch_evaluators.process_batch_evaluator; the real joblib evaluator with "
    "one worker in a share of the runs",
]
STUBS = [
    "batch evaluator (simulated worker pool)", "user objective (synthetic problems)",
    "clock (time.*)", "thread scheduling (one thread at a time at traced lines)",
]


def evidence(prop, tier, seed, n, wall, tot, fired, probes, lanes_c, sim_time, digests,
             seen, violations, known, problems, n_again, n_unequal, slow, jit):
    from dst import lanes

    sample = []
    for i in range(2):
        try:
            sc = scenario(prop, seed, i)
            text = json.dumps(sc)
            sample.append({"index": i, "scenario": sc if len(text) < 6000
                           else text[:6000]})
        except Exception as e:  # noqa: BLE001
            sample.append({"index": i, "error": str(e)})
    doc = {
        "property": prop,
        "tier": tier,
        "seed": int(seed),
        "level": "exploration",
        "coverage": {
            "evaluations": int(tot["scenarios"]),
            "distinct_nontrivial": int(min(len(seen), tot["nontrivial"])),
            "rule": RULES.get(prop, RULES["default"]),
            "samples": sample,
            "scenarios_requested": n,
            "scenarios_not_run": n - int(tot["scenarios"]) - int(tot["inconclusive"])
            - int(tot["harness_errors"]),
            "inconclusive_time_limit": int(tot["inconclusive"]),
            "harness_errors": int(tot["harness_errors"]),
            "simulated_runs": int(tot["runs"]),
            "objective_evaluations": int(tot["evals"]),
            "runs_per_hour": int(tot["runs"] / wall * 3600),
            "seeds_per_hour": int(tot["scenarios"] / wall * 3600),
            "simulated_time_s": round(float(min(sim_time, 1e300)), 3),
            "faults_fired": {k: int(v) for k, v in sorted(fired.items())},
            "probes": {k: int(v) for k, v in sorted(probes.items())},
            "lanes": dict(sorted(lanes_c.items())),
            "distinct_executions": len(digests),
            "distinct_measure": "digest over the ordered evaluations (point, value, "
            "batch), worker completion order, iterates and message of a run; thread "
            "runs add the switch log",
            "determinism_selfcheck": {"scenarios_run_twice": n_again,
                                      "unequal": n_unequal},
            "slowest_scenario_cpu_s": round(slow, 2),
            "cpu_s": round(tot["cpu_ms"] / 1000, 1),
            "real_components": REAL if not jit else [r.replace("=1", "=0")
                                                     for r in REAL],
            "stub_components": STUBS,
            "lane_weights": [[w, name] for w, name, _ in lanes.LANES[prop]],
            "violations_found": violations,
            "known_findings_hit": dict(known),
            "problems": problems[:10],
        },
        "assumptions": ["the evaluation at the start parameters succeeds",
                        "bounds are not degenerate (lower < upper)"],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    folder = os.path.join(ROOT, "evidence")
    os.makedirs(folder, exist_ok=True)
    tmp = os.path.join(folder, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(folder, f"{prop}.json"))
