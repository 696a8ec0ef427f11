"""Writes MANIFEST.json from the lists below."""
import json

TECH = "deterministic simulation with fault injection: seeded search over "
CLAIMED = {
    "C01": "worker schedules and failures; every evaluated point checked against the bounds",
    "C02": "schedules and failures; incumbent sequence checked on the recorded history",
    "C03": "schedules, failures and noise; provenance of the reported solution",
    "C04": "failure patterns (raise, NaN, inf, regions, bursts, whole batches)",
    "C05": "schedules, retries, duplicates, aborts; ledger and executable reference record",
    "C06": "worker schedules, retries, global random state and hash seeds; bitwise comparison",
    "C07": "thread interleavings, nesting, abort points; comparison with isolated runs",
    "C08": "schedules, stalls and clock jumps on a virtual clock; termination oracle",
    "C09": "schedules and failures; convergence decision recomputed from the history",
    "C10": "transient faults; bounded liveness (progress to the optimum)",
    "C11": "failures and noise; radius policy recomputed from the history",
    "C12": "subsolver failures and schedules; containment invariants",
    "C13": "failures and noise; acceptance recomputed from the evaluation ledger",
    "C14": "noise and schedules; repetition bounds checked on the ledger",
    "C15": "schedules and failures; consistency of the per-iteration record",
    "C16": "worker pools; batch protocol checked at the evaluator seam",
    "C17": "interrupt points (traced lines, evaluations, batches, components)",
    "C18": "noise levels, failures and histories; evaluation effort recomputed from the "
           "ledger",
    "C19": "failures, noise and histories; reuse, dropping and resampling recomputed",
    "C20": "failures, noise and configurations; every iteration's model refitted",
    "C21": "histories and failures; every step compared with the model's best",
}
NOTE = (
    "Sampled executions, not proof: {n} scenarios per quick run. Real optimizer code; "
    "simulated workers, objective, clock and threads. Trusts the oracle code in "
    "/verif/dst and that the evaluation at the start parameters succeeds."
)
NOT_APPLICABLE = {
    "C22": "validation of arguments before anything is evaluated: no schedule, clock, "
           "fault or history enters it",
    "C23": "pure geometry helpers: no schedule, clock, fault or history enters them",
}


def main():
    from dst.campaign import SIZES

    checks = []
    for p, what in CLAIMED.items():
        n = SIZES.get(p, SIZES["default"])[0]
        checks.append({
            "property": p,
            "quick_cmd": f"python3 check.py {p} --tier quick",
            "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH + what,
            "level": "exploration",
            "level_note": NOTE.format(n=n),
        })
    doc = {
        "version": 1,
        "setup_cmd": "python3 check.py --selftest",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": r}
                           for p, r in NOT_APPLICABLE.items()],
        "notes": "No hooks in /repo: every seam the simulator needs exists already. "
                 "Replay files are written to /verif/replays and run with "
                 "'python3 check.py --replay FILE'.",
    }
    with open("MANIFEST.json", "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import os
    import sys

    sys.path.insert(0, os.getcwd())
    main()
