"""Minimises a failing scenario while the same violation class persists."""
import copy

from dst import env, forks
from dst.util import Violation


def outcome_of(arg):
    """Decide one scenario; returns a plain dict."""
    from dst import kinds

    prop, sc = arg
    try:
        out = kinds.decide(prop, sc)
    except Violation as v:
        return {
            "rule": v.rule, "message": v.message, "digest": v.outcome.digest(),
            "outcome": plain(v.outcome),
        }
    return {"rule": None, "digest": out.digest(), "outcome": plain(out)}


def plain(out):
    return {
        "runs": out.runs, "evals": out.evals, "sim_time": out.sim_time,
        "fired": dict(out.fired), "probes": dict(out.probes), "digests": out.digests,
        "schedule": out.schedule,
    }


# lists whose elements may be dropped, wherever they occur
DROP_LISTS = {"faults", "domain_faults", "stall", "dup", "crash", "clock_jump", "abort",
              "variants", "switches", "ops", "calls", "at", "namedtuples"}
OPTIONAL = {"subsolver_fail", "component_fail", "user_components", "mutate_arg",
            "use_global_rng", "probe"}
FIXED_KWARGS = {"disable_convergence", "seed", "n_cores"}
KEEP_KWARGS = {"stopping_max_criterion_evaluations", "stopping_max_iterations"}


def _paths(obj, path=()):
    yield path, obj
    if isinstance(obj, dict):
        for k, v in obj.items():
            yield from _paths(v, path + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            if isinstance(v, dict):
                yield from _paths(v, path + (i,))


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def _with(sc, path, value):
    new = copy.deepcopy(sc)
    if not path:
        return value
    parent = _get(new, path[:-1])
    parent[path[-1]] = value
    return new


def _without(sc, path):
    new = copy.deepcopy(sc)
    del _get(new, path[:-1])[path[-1]]
    return new


def candidates(sc):
    """Smaller scenarios, most aggressive first."""
    first, second, third = [], [], []
    # the known optimum and the budget of a liveness scenario belong to its problem
    fixed = sc.get("kind") in ("conv", "convgroup")
    for path, obj in _paths(sc):
        name = path[-1] if path else None
        if isinstance(obj, list) and name in DROP_LISTS and obj:
            n = len(obj)
            first.append(_with(sc, path, []))
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    cut = obj[:a] + obj[a + size:]
                    if cut or name != "ops":
                        (second if size > 1 else third).append(_with(sc, path, cut))
                if size == 1:
                    break
                size //= 2
        if isinstance(obj, list) and name == "scs" and len(obj) > 1:
            for i in range(len(obj)):
                if "order" not in sc and sc.get("mode") in (None, "after"):
                    first.append(_with(sc, path, obj[:i] + obj[i + 1:]))
        if isinstance(obj, dict) and name == "kwargs":
            for k in obj:
                if k not in KEEP_KWARGS and not (fixed and k in FIXED_KWARGS):
                    second.append(_without(sc, path + (k,)))
            for k in KEEP_KWARGS & set(obj) if not fixed else ():
                v = int(obj[k])
                for new in (v // 2, v - 1):
                    if 1 <= new < v:
                        third.append(_with(sc, path + (k,), new))
        if isinstance(obj, dict) and len(path) >= 2 and path[-2] == "kwargs":
            for k in obj:
                third.append(_without(sc, path + (k,)))
        if isinstance(obj, dict) and name == "pool":
            for k in obj:
                if k not in ("pseed", "lat", "order"):
                    second.append(_without(sc, path + (k,)))
            if obj.get("lat") not in (None, "zero"):
                second.append(_with(sc, path + ("lat",), "zero"))
            if obj.get("order") not in (None, "fifo"):
                second.append(_with(sc, path + ("order",), "fifo"))
        if isinstance(obj, dict) and name == "problem" and not fixed:
            if obj.get("lb") is not None and obj.get("ub") is not None:
                new = copy.deepcopy(sc)
                q = _get(new, path)
                q["lb"] = q["ub"] = None
                second.append(new)
            for k, v in (("lb", None), ("ub", None), ("scale", 1.0), ("shift", 0.0),
                         ("nonlin", 0.0)):
                if obj.get(k) != v:
                    third.append(_with(sc, path + (k,), v))
        if name in OPTIONAL and obj:
            first.append(_without(sc, path))
    return first + second + third


def shrink(prop, sc, rule, *, budget=60.0, workers=8, cpu_limit=120):
    """Greedy: test the candidates in parallel, move to the first that still fails."""
    end = env.real_time() + budget
    best, steps, tried = sc, 0, 0
    while env.real_time() < end:
        jobs = list(enumerate(candidates(best)))
        if not jobs:
            break
        found = {}

        def stop():
            return bool(found) or env.real_time() > end

        arg = [(i, (prop, c)) for i, c in jobs]
        for res in forks.run_jobs(
            arg, outcome_of, workers=workers, cpu_limit=cpu_limit, wall_limit=120,
            stop=stop,
        ):
            tried += 1
            if res.status == "ok" and res.value["rule"] == rule:
                found[res.key] = res.value
        if not found:
            break
        best = jobs[min(found)][1]
        steps += 1
    return best, steps, tried
