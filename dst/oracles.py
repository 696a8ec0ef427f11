"""Property oracles over the observable outcome of one simulated run.

They only use the result dictionary, the evaluation record, what the simulated objective
and evaluator saw, and the scenario. Every oracle raises ``Violation`` or returns a dict
of probe counters ("how often was something non-trivial judged").
"""
import math

import numpy as np

from dst.problems import aggregate
from dst.util import Violation

CONV_KEYS = ("converg", "smaller than tolerance")


# --------------------------------------------------------------------------- helpers
class View:
    """Derived, implementation independent view of a finished run."""

    def __init__(self, run):
        self.run = run
        self.sc = run.sc
        self.kw = run.sc["kwargs"]
        self.world = run.world
        self.problem = run.problem
        self.functype = run.problem.functype
        self.res = run.result
        self.hist = self.res["tranquilo_history"]
        self.states = self.res["states"]
        self.n_xs = int(self.hist.get_n_xs())
        self.xs = np.array(self.hist.get_xs(), dtype=float)
        self.fvals = {
            int(i): np.array(v, dtype=float)
            for i, v in self.hist.get_fvals(np.arange(self.n_xs)).items()
        }
        self.fvecs = {
            int(i): np.array(v, dtype=float)
            for i, v in self.hist.get_fvecs(np.arange(self.n_xs)).items()
        }
        self.noisy = bool(self.kw.get("noisy", False))
        self.has_noise = self.world.noise_sd > 0
        self.iters = self.world.iters
        self.probed = bool(self.sc.get("probe", True))
        self.batch_size = int(self.kw.get("batch_size") or self.kw.get("n_cores", 1))
        self.decider = self.kw.get(
            "acceptance_decider", "noisy" if self.noisy else "classic"
        )
        keys = [x.tobytes() for x in self.xs]
        self.key_count = {}
        for k in keys:
            self.key_count[k] = self.key_count.get(k, 0) + 1
        self.keys = keys
        self.by_key = {}
        for d in self.world.delivered:
            self.by_key.setdefault(d.x.tobytes(), []).append(d)

    def accept_opt(self, name):
        from tranquilo.options import AcceptanceOptions

        return (self.kw.get("acceptance_decider_options") or {}).get(
            name, getattr(AcceptanceOptions(), name)
        )

    def unique(self, idx):
        return self.key_count[self.keys[idx]] == 1

    def constant(self, idx):
        """Whether all evaluations at the vector of a point have the same value."""
        key = self.keys[idx]
        vals = np.concatenate(
            [self.fvals[i] for i in range(self.n_xs) if self.keys[i] == key]
        )
        return bool(np.all(vals == vals[0]))

    def count_at(self, idx, it, *, upto_batch=None):
        """Number of evaluations delivered for a (unique) x by the end of iteration."""
        ds = self.by_key.get(self.keys[idx], [])
        if upto_batch is not None:
            return sum(d.batch < upto_batch for d in ds)
        return sum(d.it <= it for d in ds)

    def last_batch_of(self, it):
        bs = [b["batch"] for b in self.world.batches if b["it"] == it]
        return max(bs) if bs else None

    def it_range(self, k):
        """x indices created in iteration k (1-based)."""
        lo = self.iters[k - 1]["n_xs"]
        hi = self.iters[k]["n_xs"] if k < len(self.iters) else self.n_xs
        return lo, hi

    def candidate_of(self, k):
        """Index of the subproblem solution of iteration k."""
        lo, hi = self.it_range(k)
        if self.decider == "classic_line_search" and self.batch_size > 1:
            return hi - self.batch_size
        return hi - 1


def expected_fvec(d, n_resid):
    """What the record has to contain for one delivered evaluation."""
    if d.failed or isinstance(d.raw, str):
        return np.full(n_resid, np.inf)
    arr = np.array(d.raw, dtype=float).reshape(-1)
    return np.where(np.isnan(arr), np.inf, arr)


def close(a, b, rtol=1e-9, atol=0.0):
    a, b = float(a), float(b)
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_vec(a, b):
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))


def require_result(run, prop):
    """Runs that ended with an exception are judged by the properties on failures."""
    return run.result is not None


def scalar_predict(model, x):
    """Independent evaluation of the scalar model of an iteration at x."""
    u = (np.asarray(x, dtype=float) - model.shift) / model.scale
    out = float(np.asarray(model.intercept)) + float(model.linear_terms @ u)
    if model.square_terms is not None:
        out += 0.5 * float(u @ model.square_terms @ u)
    return out


def is_convergence(msg):
    return isinstance(msg, str) and "smaller than tolerance" in msg


# --------------------------------------------------------------------------- C01
def check_bounds(run):
    p = run.problem
    if p.lb is None and p.ub is None:
        return {"bounded": 0}
    lb = -np.inf * np.ones(p.dim) if p.lb is None else p.lb
    ub = np.inf * np.ones(p.dim) if p.ub is None else p.ub
    n_active = 0

    def ok(x, what):
        nonlocal n_active
        x = np.asarray(x, dtype=float)
        if x.shape != lb.shape or np.isnan(x).any():
            raise Violation("malformed-x", f"{what}: {x}")
        if (x < lb).any() or (x > ub).any():
            raise Violation(
                "outside-bounds",
                f"{what} = {x.tolist()} violates bounds lower={lb.tolist()} "
                f"upper={ub.tolist()} by {max((lb - x).max(), (x - ub).max()):.3e}",
            )
        n_active += int((x == lb).any() or (x == ub).any())

    for k, _, x in run.world.calls:
        ok(x, f"objective call {k}")
    if run.result is not None:
        v = View(run)
        for i, x in enumerate(v.xs):
            ok(x, f"recorded point {i}")
        ok(run.result["solution_x"], "solution_x")
        for j, s in enumerate(v.states):
            ok(s.x, f"incumbent of iteration {j}")
            ok(s.candidate_x, f"candidate of iteration {j}")
    return {"bounded": 1, "active_points": n_active, "calls": len(run.world.calls)}


# --------------------------------------------------------------------------- C02
def check_monotone(run):
    if run.result is None or run.world.noise_sd > 0:
        return {}
    v = View(run)
    min_imp = float(v.accept_opt("min_improvement"))
    st = v.states
    probes = {"accepted": 0, "rejected": 0}
    for k in range(1, len(st)):
        old, new = float(st[k - 1].fval), float(st[k].fval)
        scale = 1e-9 * max(1.0, abs(old) if math.isfinite(old) else 1.0)
        if math.isnan(new):
            raise Violation("incumbent-nan", f"iteration {k}: incumbent value is NaN")
        if new > old + scale:
            raise Violation(
                "incumbent-worse", f"iteration {k}: incumbent {old!r} -> {new!r}"
            )
        true_old = v.problem.fval(st[k - 1].x)
        true_new = v.problem.fval(st[k].x)
        if math.isfinite(true_old) and true_new > true_old + 1e-9 * max(1, abs(true_old)):
            if math.isfinite(old):
                raise Violation(
                    "incumbent-truly-worse",
                    f"iteration {k}: objective at incumbent {true_old!r} -> {true_new!r}",
                )
        if st[k].accepted:
            probes["accepted"] += 1
            if old - new < min_imp - scale:
                raise Violation(
                    "accepted-without-improvement",
                    f"iteration {k}: accepted improvement {old - new!r} < {min_imp}",
                )
        else:
            probes["rejected"] += 1
            if not (close(old, new) and same_vec(st[k].x, st[k - 1].x)):
                raise Violation(
                    "rejected-step-moved", f"iteration {k}: rejected but incumbent moved"
                )
    f0 = v.problem.fval(v.problem.x0)
    fs = v.problem.fval(run.result["solution_x"])
    start_ok = np.isfinite(v.fvals[0]).all()
    if start_ok and fs > f0 + 1e-9 * max(1, abs(f0)):
        raise Violation("solution-worse-than-start", f"f(x0)={f0!r}, f(sol)={fs!r}")
    best = min(float(s.fval) for s in st)
    if not close(run.result["solution_criterion"], best):
        raise Violation(
            "solution-not-best-incumbent",
            f"solution {run.result['solution_criterion']!r}, best incumbent {best!r}",
        )
    return probes


# --------------------------------------------------------------------------- C03
def check_provenance(run):
    if run.result is None:
        return {}
    v = View(run)
    probes = {"states": 0, "prefix": 0}
    sol = np.asarray(run.result["solution_x"], dtype=float)
    last = v.states[-1]
    if not same_vec(sol, last.x):
        raise Violation("solution-not-last-incumbent", f"{sol} vs {last.x}")
    if not close(run.result["solution_criterion"], last.fval):
        raise Violation(
            "solution-value", f"{run.result['solution_criterion']} vs {last.fval}"
        )
    n_res = v.problem.n_resid
    for k, s in enumerate(v.states):
        x = np.asarray(s.x, dtype=float)
        ds = v.by_key.get(x.tobytes())
        ds = [d for d in ds or [] if not v.probed or d.it <= k]
        if not ds:
            raise Violation(
                "never-evaluated",
                f"incumbent of iteration {k} {x.tolist()} was not evaluated by then",
            )
        vals = [
            aggregate(v.functype, expected_fvec(d, n_res))
            for d in sorted(ds, key=lambda d: d.k)
        ]
        f = float(s.fval)
        probes["states"] += 1
        if not v.has_noise:
            if not any(close(f, y) for y in vals):
                raise Violation(
                    "value-mismatch",
                    f"iteration {k}: stored value {f!r}, evaluations there {vals[:5]}",
                )
            continue
        idx = int(s.index)
        if not 0 <= idx < v.n_xs or not same_vec(v.xs[idx], x):
            raise Violation("index-mismatch", f"iteration {k}: index {idx}")
        rec = v.fvals[idx]
        for r in rec:
            if not any(close(r, y) for y in
                       [aggregate(v.functype, expected_fvec(d, n_res))
                        for d in v.by_key[x.tobytes()]]):
                raise Violation(
                    "foreign-value", f"iteration {k}: recorded {r!r} was not measured at x"
                )
        if v.unique(idx):
            rec = np.array(vals)
        # average of the evaluations known when the point became the incumbent
        means = [float(np.mean(rec[:m])) for m in range(1, len(rec) + 1)]
        if not any(close(f, m, rtol=1e-8, atol=1e-12) for m in means):
            raise Violation(
                "not-an-average",
                f"iteration {k}: stored value {f!r} is no average of {rec.tolist()}",
            )
        if len(rec) > 1:
            probes["prefix"] += 1
    return probes


# --------------------------------------------------------------------------- C04
ALLOWED = ("smaller than tolerance", "evaluations reached", "iterations reached",
           "time reached")


def check_failures(run):
    w = run.world
    n_failed = sum(1 for d in w.delivered if _is_failure(d, run.problem.n_resid))
    if run.exc is not None:
        raise Violation(
            "run-aborted",
            f"{run.exc_type}: {run.exc} after {len(w.delivered)} evaluations "
            f"({n_failed} failed)\n{_tb_tail(run)}",
        )
    v = View(run)
    res = run.result
    for key in ("solution_x", "solution_criterion", "states", "message",
                "tranquilo_history"):
        if key not in res:
            raise Violation("malformed-result", f"missing {key}")
    if not np.isfinite(np.asarray(res["solution_x"], dtype=float)).all():
        raise Violation("malformed-result", f"solution_x {res['solution_x']}")
    if not isinstance(res["message"], str) or not res["message"]:
        raise Violation("malformed-result", f"message {res['message']!r}")
    n_res = run.problem.n_resid
    finite_seen = False
    for k, s in enumerate(v.states):
        f = float(s.fval)
        if math.isfinite(f):
            finite_seen = True
        elif finite_seen:
            raise Violation(
                "failed-incumbent", f"iteration {k}: incumbent value became {f!r}"
            )
        # (a vector may be recorded several times, e.g. if a step has length zero)
        if finite_seen and k and s.accepted and v.unique(int(s.index)):
            ds = [
                d for d in v.by_key.get(np.asarray(s.x, dtype=float).tobytes(), [])
                if v.probed and d.it == k
            ]
            for d in ds:
                if not np.isfinite(expected_fvec(d, n_res)).all() and (
                    v.decider != "classic_line_search" or not v.has_noise
                ):
                    raise Violation(
                        "failed-incumbent",
                        f"iteration {k}: accepted a point with failed evaluation {d.k}",
                    )
    # the final incumbent of a deterministic objective never failed
    if not v.has_noise and finite_seen:
        for d in v.by_key.get(np.asarray(res["solution_x"], dtype=float).tobytes(), []):
            pass
    # record shows every failed evaluation as infinite
    for key, ds in v.by_key.items():
        idxs = [i for i, kk in enumerate(v.keys) if kk == key]
        n_bad = sum(_is_failure(d, n_res) for d in ds)
        n_rec = sum(
            int((~np.isfinite(row)).any()) for i in idxs for row in v.fvecs[i]
        )
        if n_bad != n_rec:
            raise Violation(
                "failure-not-recorded",
                f"{n_bad} failed evaluations at {np.frombuffer(key).tolist()}, "
                f"{n_rec} infinite records",
            )
        for i in idxs:
            if np.isnan(v.fvecs[i]).any():
                raise Violation("nan-recorded", f"NaN recorded for point {i}")
    return {"failed": n_failed, "states": len(v.states)}


def _is_failure(d, n_res):
    return not np.isfinite(expected_fvec(d, n_res)).all()


def _tb_tail(run):
    lines = (run.exc_tb or "").strip().splitlines()
    keep = [ln for ln in lines if "src/tranquilo" in ln]
    return "\n".join(keep[-3:])


# --------------------------------------------------------------------------- C05
def check_ledger(run):
    if run.result is None:
        return {}
    v = View(run)
    n_res = v.problem.n_resid
    n_del = len(v.world.delivered)
    if v.hist.get_n_fun() != n_del:
        raise Violation(
            "count", f"record counts {v.hist.get_n_fun()} evaluations, {n_del} delivered"
        )
    if sum(len(f) for f in v.fvals.values()) != n_del:
        raise Violation("count", "evaluations per point do not add up")
    n_evals = v.hist.get_n_evals(np.arange(v.n_xs))
    for i in range(v.n_xs):
        if int(n_evals[i]) != len(v.fvals[i]):
            raise Violation("count", f"n_evals of point {i}")
    rec_keys = set(v.keys)
    if rec_keys != set(v.by_key):
        extra = rec_keys - set(v.by_key)
        missing = set(v.by_key) - rec_keys
        raise Violation(
            "points",
            f"{len(extra)} recorded points were never evaluated, {len(missing)} "
            f"evaluated points are not recorded "
            f"{[np.frombuffer(k).tolist() for k in list(extra)[:1] + list(missing)[:1]]}",
        )
    for key, ds in v.by_key.items():
        idxs = [i for i, kk in enumerate(v.keys) if kk == key]
        rec = np.vstack([v.fvecs[i].reshape(len(v.fvecs[i]), -1) for i in idxs])
        exp = np.array([expected_fvec(d, n_res) for d in sorted(ds, key=lambda d: d.k)])
        if rec.shape != exp.shape:
            raise Violation(
                "multiplicity",
                f"{len(exp)} evaluations at {np.frombuffer(key).tolist()}, "
                f"{len(rec)} recorded",
            )
        if len(idxs) == 1:
            if not np.array_equal(rec, exp):
                raise Violation(
                    "values",
                    f"recorded {rec.tolist()[:3]} for delivered {exp.tolist()[:3]} at "
                    f"{np.frombuffer(key).tolist()}",
                )
        elif sorted(map(tuple, rec.tolist())) != sorted(map(tuple, exp.tolist())):
            raise Violation("values", f"values at {np.frombuffer(key).tolist()}")
        for i in idxs:
            for row, fv in zip(v.fvecs[i], v.fvals[i]):
                want = aggregate(v.functype, row)
                if not close(fv, want, rtol=1e-10, atol=1e-300):
                    raise Violation("aggregate", f"point {i}: {fv!r} vs {want!r}")
    # derived views of the record agree
    xs, fv = v.hist.get_model_data(np.arange(v.n_xs), average=False)
    if len(xs) != n_del or len(fv) != n_del:
        raise Violation("model-data", f"{len(xs)} rows of model data for {n_del}")
    pos = 0
    for i in range(v.n_xs):
        for row in v.fvecs[i]:
            if not same_vec(xs[pos], v.xs[i]) or not np.array_equal(
                np.asarray(fv[pos], dtype=float).reshape(-1), row.reshape(-1)
            ):
                raise Violation("model-data", f"row {pos}")
            pos += 1
    n_calls = len(v.world.calls)
    n_extra = v.world.fired.get("worker_crash", 0) + v.world.fired.get(
        "duplicate_result", 0
    )
    if not n_del <= n_calls <= n_del + n_extra:
        raise Violation("calls", f"{n_calls} objective calls for {n_del} results")
    return {"evals": n_del, "repeats": n_del - v.n_xs}


# --------------------------------------------------------------------------- C08
def max_evals_of_iteration(v, k):
    """Upper bound on the evaluations that iteration k (1-based) may make."""
    it = v.iters[k - 1]
    npp = int(it["n_evals_per_point"])
    bs = v.batch_size
    target = it["target"]
    st = v.kw.get("stagnation_options") or {}
    inc = int(st.get("sample_increment", 1))
    trials = int(st.get("max_trials", 1))
    n_old = len(it["old_indices"])
    topup = n_old * npp
    new = int(math.ceil(max(0, target) / bs) * bs) * npp
    stag = max(1, trials) * inc * npp
    d = v.decider
    if d == "classic":
        acc = 1
    elif d == "naive_noisy":
        acc = 10
    elif d == "noisy":
        acc = 2 * int(v.accept_opt("n_max"))
        acc = max(acc, int(v.accept_opt("n_max")) + int(v.accept_opt("n_min")))
    else:
        acc = max(1, bs)
    return new + topup + stag + acc


def check_stopping(run):
    if run.result is None:
        return {}
    v = View(run)
    kw = v.kw
    max_iter = int(kw.get("stopping_max_iterations", 200))
    max_eval = int(kw.get("stopping_max_criterion_evaluations", 2000))
    max_time = float(kw.get("stopping_max_time", math.inf))
    n_iter = len(v.states) - 1
    msg = run.result["message"]
    n_fun = v.hist.get_n_fun()
    if n_iter > max_iter:
        raise Violation("too-many-iterations", f"{n_iter} > {max_iter}")
    reason = None
    if is_convergence(msg):
        reason = "converged"
    elif not isinstance(msg, str):
        raise Violation("no-reason", f"message {msg!r}")
    elif "evaluations" in msg:
        reason = "evals"
        if n_fun < max_eval:
            raise Violation("false-reason", f"{msg} but {n_fun} < {max_eval}")
    elif "iterations" in msg:
        reason = "iters"
        if n_iter != max_iter:
            raise Violation("false-reason", f"{msg} but {n_iter} of {max_iter}")
    elif "time" in msg.lower():
        reason = "time"
        if run.sim_time < max_time:
            raise Violation("false-reason", f"{msg} after {run.sim_time} < {max_time}")
    else:
        raise Violation("no-reason", f"unknown message {msg!r}")
    if not v.probed:
        return {"reason_" + reason: 1}
    if len(v.iters) != n_iter:
        raise Violation(
            "iteration-record", f"{len(v.iters)} iterations started, {n_iter} recorded"
        )
    t0 = v.world.t_start
    for k in range(2, len(v.iters) + 1):
        it = v.iters[k - 1]
        if it["n_evals"] >= max_eval:
            raise Violation(
                "iteration-after-budget",
                f"iteration {k} started with {it['n_evals']} of {max_eval} evaluations",
            )
        if it["now"] - t0 >= max_time:
            raise Violation(
                "iteration-after-time",
                f"iteration {k} started after {it['now'] - t0} of {max_time} seconds",
            )
    probes = {"reason_" + reason: 1, "iters": n_iter}
    for k in range(1, len(v.iters) + 1):
        lo = v.iters[k - 1]["n_evals"]
        hi = v.iters[k]["n_evals"] if k < len(v.iters) else n_fun
        bound = max_evals_of_iteration(v, k)
        if hi - lo > bound:
            raise Violation(
                "unbounded-iteration",
                f"iteration {k} made {hi - lo} evaluations, at most {bound} configured",
            )
        if hi - lo < 1:
            raise Violation("idle-iteration", f"iteration {k} made no evaluation")
    return probes


# --------------------------------------------------------------------------- C09
TOLS = {
    "Relative gradient": ("convergence_relative_gradient_tolerance", 1e-8),
    "Absolute gradient": ("convergence_absolute_gradient_tolerance", 0.0),
    "Relative criterion": ("convergence_relative_criterion_tolerance", 2e-9),
    "Absolute criterion": ("convergence_absolute_criterion_tolerance", 0.0),
    "Relative params": ("convergence_relative_params_tolerance", 1e-8),
    "Absolute params": ("convergence_absolute_params_tolerance", 0.0),
}


def convergence_measures(old, new):
    fa = abs(float(old.fval) - float(new.fval))
    fr = fa / max(abs(float(old.fval)), 1.0)
    d = np.asarray(old.x, dtype=float) - np.asarray(new.x, dtype=float)
    xa = float(np.sqrt(d @ d))
    dr = d / np.maximum(np.abs(np.asarray(old.x, dtype=float)), 1.0)
    xr = float(np.sqrt(dr @ dr))
    g = np.asarray(new.model.linear_terms, dtype=float)
    ga = float(np.sqrt(g @ g))
    gr = ga / max(ga, 1.0)
    return {
        "Relative gradient": gr,
        "Absolute gradient": ga,
        "Relative criterion": fr,
        "Absolute criterion": fa,
        "Relative params": xr,
        "Absolute params": xa,
    }


def check_convergence(run):
    if run.result is None:
        return {}
    v = View(run)
    msg = run.result["message"]
    st = v.states
    conv = is_convergence(msg)
    probes = {"converged": int(conv), "accepted_not_converged": 0, "rejected": 0}
    if v.kw.get("disable_convergence", False):
        if conv:
            raise Violation("disabled-convergence", f"message {msg!r}")
        return {"disabled": 1}
    tol = {name: float(v.kw.get(key, dflt)) for name, (key, dflt) in TOLS.items()}
    for k in range(1, len(st)):
        meas = convergence_measures(st[k - 1], st[k])
        surely = [
            n for n in TOLS
            if meas[n] < tol[n] * (1 - 1e-9) - 1e-300 or meas[n] == 0.0 <= tol[n]
        ]
        maybe = [
            n for n in TOLS
            if meas[n] <= tol[n] * (1 + 1e-9) + 1e-14 * max(
                1.0, abs(float(st[k - 1].fval)) if "criterion" in n else 1.0)
            * (tol[n] > 0)
        ]
        last = k == len(st) - 1
        if st[k].accepted:
            if surely and not (last and conv):
                # the decider may accept "itself"; any accepted step counts
                raise Violation(
                    "missed-convergence",
                    f"iteration {k} was accepted and meets {surely} "
                    f"({meas[surely[0]]!r} <= {tol[surely[0]]!r}), message {msg!r}, "
                    f"{len(st) - 1} iterations",
                )
            if last and conv:
                named = [n for n in TOLS if msg.startswith(n)]
                if not named:
                    raise Violation("unknown-message", f"{msg!r}")
                if named[0] not in maybe:
                    raise Violation(
                        "false-convergence",
                        f"{msg!r} but measure is {meas[named[0]]!r}, "
                        f"tolerance {tol[named[0]]!r}",
                    )
            if not surely:
                probes["accepted_not_converged"] += 1
        else:
            probes["rejected"] += 1
            if last and conv:
                raise Violation(
                    "convergence-on-rejection", f"{msg!r} after a rejected step"
                )
    if conv and len(st) == 1:
        raise Violation("convergence-without-step", f"{msg!r}")
    return probes


# --------------------------------------------------------------------------- C11
def radius_options(v):
    from tranquilo.options import RadiusOptions

    user = dict(v.kw.get("radius_options") or {})
    base = RadiusOptions(initial_radius=user.get("initial_radius", 1.0))._asdict()
    base.update(user)
    if "initial_radius" not in user:
        m = float(np.max(np.abs(v.problem.x0)))
        base["initial_radius"] = 0.1 * m if m > 0 else None
    return base


def check_radius(run):
    if run.result is None:
        return {}
    v = View(run)
    ro = radius_options(v)
    st = v.states
    probes = {"expand": 0, "shrink": 0, "keep": 0, "capped": 0}
    seq = [(k, st[k].trustregion) for k in range(len(st))]
    for k, tr in seq:
        r = float(tr.radius)
        if not math.isfinite(r) or r < ro["min_radius"] * (1 - 1e-12) or r > ro[
            "max_radius"
        ] * (1 + 1e-12):
            raise Violation(
                "radius-limits",
                f"iteration {k}: radius {r!r} outside "
                f"[{ro['min_radius']!r}, {ro['max_radius']!r}]",
            )
    if ro["initial_radius"] is not None and len(st) > 1:
        for k in (0, 1):
            if not close(st[k].trustregion.radius, ro["initial_radius"]):
                raise Violation(
                    "initial-radius",
                    f"{st[k].trustregion.radius!r} vs {ro['initial_radius']!r}",
                )
    for k in range(1, len(st)):
        center = np.asarray(st[k].trustregion.center, dtype=float)
        if not same_vec(center, st[k - 1].x):
            raise Violation("center", f"iteration {k}: not centered at the incumbent")
        if v.probed and k <= len(v.iters):
            it = v.iters[k - 1]
            if it["radius"] != float(st[k].trustregion.radius) or not same_vec(
                it["center"], center
            ):
                raise Violation("region-record", f"iteration {k}")
    for k in range(1, len(st) - 1):
        r = float(st[k].trustregion.radius)
        nxt = float(st[k + 1].trustregion.radius)
        rho = float(st[k].rho)
        d = np.asarray(st[k].x, dtype=float) - np.asarray(st[k - 1].x, dtype=float)
        step = float(np.sqrt(d @ d))
        inc = False
        if v.noisy:
            a, b = st[k].n_evals_per_point, st[k + 1].n_evals_per_point
            inc = b is not None and a is not None and b > a
        options = set()
        for slack in (-1, 1):
            rr = rho + slack * 1e-9 * max(1.0, abs(rho)) if math.isfinite(rho) else rho
            ratio = step / r * (1 + slack * 1e-9)
            if rr >= ro["rho_increase"] and ratio >= ro["large_step"]:
                options.add(("expand", r * ro["expansion_factor"]))
            elif rr >= ro["rho_decrease"] or inc:
                options.add(("keep", r))
            else:
                options.add(("shrink", r * ro["shrinking_factor"]))
        ratio_cap = ro["max_radius_to_step_ratio"]
        good = []
        for name, raw in options:
            cap = ro["max_radius"]
            if math.isfinite(ratio_cap) and step > 0:
                cap = min(cap, step * ratio_cap)
            want = max(min(raw, cap), ro["min_radius"])
            good.append((name, raw, want))
        hit = [g for g in good if close(nxt, g[2], rtol=1e-8)]
        if not hit:
            raise Violation(
                "radius-policy",
                f"after iteration {k}: radius {r!r} -> {nxt!r}, expected "
                f"{[(g[0], g[2]) for g in good]} (rho={rho!r}, step/radius={step / r!r}, "
                f"n_evals increased={inc})",
            )
        probes[hit[0][0]] += 1
        probes["capped"] += int(hit[0][1] != hit[0][2])
    return probes


# --------------------------------------------------------------------------- C12
def cube_half_width(radius, n):
    log_v = n / 2 * math.log(math.pi) + n * math.log(radius) - math.lgamma(n / 2 + 1)
    return math.exp(log_v / n) / 2


def region_shape(v, tr):
    lb = v.problem.lb
    ub = v.problem.ub
    c = np.asarray(tr.center, dtype=float)
    r = float(tr.radius)
    gaps = []
    if lb is not None and np.isfinite(lb).any() or ub is not None and np.isfinite(ub).any():
        if lb is not None:
            gaps.append(np.min(c - lb))
        if ub is not None:
            gaps.append(np.min(ub - c))
    gap = min(gaps) if gaps else math.inf
    if abs(gap - r) <= 1e-9 * max(r, 1e-300):
        return None
    return "cube" if gap <= r else "sphere"


def containment(v, tr, x, slack):
    """None if x is in the region, else how far it is outside (relative)."""
    c = np.asarray(tr.center, dtype=float)
    r = float(tr.radius)
    shape = region_shape(v, tr)
    d = np.asarray(x, dtype=float) - c
    eps = 1e-9 + 4e-16 * float(np.max(np.abs(c))) / r
    norm = float(np.sqrt(d @ d))
    sphere = norm / r - 1
    half = cube_half_width(r, len(c))
    cube = float(np.max(np.abs(d))) / half - 1
    if shape == "sphere":
        over = sphere - slack
    elif shape == "cube":
        over = cube
    else:
        over = min(cube, sphere - slack)
    return None if over <= eps else over


def check_containment(run):
    v_retry = run.sc["kwargs"].get("retry_subproblem_with_fallback", True)
    fired = run.sub_fired > 0
    if run.exc is not None:
        if fired and not v_retry:
            want = run.sc["subsolver_fail"]["exc"]
            if run.exc_type != _exc_name(want) or "injected subsolver" not in str(run.exc):
                raise Violation(
                    "subsolver-error-changed", f"injected {want}, got {run.exc_type}"
                )
            if len(run.world.delivered) > run.world.evals_at_subfail:
                raise Violation("evaluated-after-error", "evaluations after the error")
            return {"propagated": 1}
        if fired:
            raise Violation(
                "fallback-failed", f"{run.exc_type}: {run.exc}\n{_tb_tail(run)}"
            )
        return {}
    if fired and not v_retry:
        raise Violation("error-swallowed", "subsolver error did not reach the caller")
    v = View(run)
    probes = {"samples": 0, "candidates": 0, "fallback": run.sub_fired, "cube": 0}


    for k in range(1, len(v.states)):
        s = v.states[k]
        tr = s.trustregion
        if v.probed:
            lo, hi = v.it_range(k)
            c = v.candidate_of(k)
            for i in range(lo, c):
                over = containment(v, tr, v.xs[i], 0.0)
                probes["samples"] += 1
                if over is not None:
                    raise Violation(
                        "sample-outside",
                        f"iteration {k}: sampled point {i} is outside the trust region "
                        f"by {over:.3e} (relative)",
                    )
            cand = v.xs[c]
        else:
            if v.decider == "classic_line_search":
                continue
            cand = np.asarray(s.candidate_x, dtype=float)
        over = containment(v, tr, cand, 0.0)
        probes["candidates"] += 1
        probes["cube"] += int(region_shape(v, tr) == "cube")
        if over is not None:
            raise Violation(
                "candidate-outside",
                f"iteration {k}: candidate is outside the trust region by {over:.3e} "
                "(relative, beyond the solver tolerance)",
            )
        old = scalar_predict(s.model, tr.center)
        new = scalar_predict(s.model, cand)
        mag = _model_magnitude(s.model)
        if math.isfinite(old) and math.isfinite(new):
            if new - old > 1e-9 * max(abs(old), mag):
                raise Violation(
                    "predicted-worse",
                    f"iteration {k}: model predicts {new!r} at the candidate, {old!r} at "
                    "the incumbent",
                )
    return probes


def _exc_name(name):
    from dst.pool import EXC

    return EXC[name].__name__


def _model_magnitude(m):
    out = abs(float(np.asarray(m.intercept))) + float(np.abs(m.linear_terms).sum())
    if m.square_terms is not None:
        out += float(np.abs(m.square_terms).sum())
    return out


# --------------------------------------------------------------------------- C13
def check_acceptance(run):
    if run.result is None:
        return {}
    v = View(run)
    if not v.probed:
        return {}
    st = v.states
    min_imp = float(v.accept_opt("min_improvement"))
    probes = {"accepted": 0, "rejected": 0, "nonfinite": 0, "rho": 0, "line": 0}
    for k in range(1, len(st)):
        p, s = st[k - 1], st[k]
        lo, hi = v.it_range(k)
        c = v.candidate_of(k)
        if c < lo:
            raise Violation("no-candidate", f"iteration {k} evaluated no candidate")
        if not v.unique(c):
            # the candidate coincides with another point: attribute by index order
            cand_vals = v.fvals[c]
            if v.noisy or not v.constant(c):
                continue
        else:
            cand_vals = v.fvals[c][: v.count_at(c, k)]
        if len(cand_vals) == 0:
            raise Violation("candidate-not-evaluated", f"iteration {k}")
        cand_mean = float(np.mean(cand_vals))
        prev = float(p.fval)
        if v.decider == "noisy":
            pi = int(p.index)
            if not v.unique(pi):
                continue
            prev = float(np.mean(v.fvals[pi][: v.count_at(pi, k)]))
        line = v.decider == "classic_line_search" and v.batch_size > 1
        best, best_idx = cand_mean, c
        if line:
            probes["line"] += 1
            skip = False
            for i in range(c + 1, hi):
                vals = v.fvals[i]
                if v.unique(i):
                    vals = vals[: v.count_at(i, k)]
                elif not v.constant(i):
                    skip = True
                if len(vals) == 0:
                    raise Violation("line-search-not-evaluated", f"iteration {k}")
                m = float(np.mean(vals))
                if m == -math.inf:
                    skip = True
                if m < best:
                    best, best_idx = m, i
            if skip:
                continue
        actual = prev - cand_mean
        with np.errstate(all="ignore"):
            expected = scalar_predict(s.model, p.x) - scalar_predict(s.model, v.xs[c])
        mag = max(
            _model_magnitude(s.model), abs(scalar_predict(s.model, p.x))
        )
        if not math.isfinite(best):
            probes["nonfinite"] += 1
            if s.accepted:
                raise Violation(
                    "accepted-nonfinite", f"iteration {k}: accepted value {best!r}"
                )
            if s.rho != -math.inf:
                raise Violation("rho-nonfinite", f"iteration {k}: rho {s.rho!r}")
            continue
        improvement = prev - best
        tol = 1e-10 * max(1.0, abs(best), abs(prev) if math.isfinite(prev) else 0.0)
        if math.isnan(improvement):
            continue
        decided = abs(improvement - min_imp) > tol or (
            not v.has_noise and improvement == min_imp
        )
        if decided and bool(s.accepted) != (improvement >= min_imp):
            raise Violation(
                "acceptance",
                f"iteration {k}: accepted={bool(s.accepted)} but improvement is "
                f"{improvement!r} (incumbent {prev!r}, candidate {best!r}, minimum "
                f"{min_imp!r})",
            )
        probes["accepted" if s.accepted else "rejected"] += 1
        if s.accepted:
            if not close(float(s.fval), best, rtol=1e-8, atol=1e-12):
                raise Violation(
                    "accepted-value", f"iteration {k}: {s.fval!r} vs recorded {best!r}"
                )
            if not same_vec(s.x, v.xs[best_idx]) and not close(
                best, float(np.mean(v.fvals[int(s.index)])), rtol=1e-12
            ):
                raise Violation("accepted-point", f"iteration {k}")
        # ratio of actual and predicted improvement
        rho = float(s.rho)
        if not math.isfinite(expected) or not math.isfinite(mag):
            continue
        if abs(expected) > 1e-7 * mag and math.isfinite(actual):
            err = 1e-6 * abs(actual / expected) + 1e-6 + (
                1e-12 * max(abs(prev), abs(cand_mean)) + abs(actual / expected) * 1e-12 * mag
            ) / abs(expected)
            if not abs(rho - actual / expected) <= err:
                raise Violation(
                    "rho",
                    f"iteration {k}: rho {rho!r}, recorded evaluations and model give "
                    f"{actual / expected!r}",
                )
            probes["rho"] += 1
        elif expected <= 1e-7 * mag and math.isfinite(actual) and abs(actual) > tol:
            # (nearly) no predicted improvement: only the sign is determined
            if math.isnan(rho) or (rho > 0) != (actual > 0) and rho != 0:
                raise Violation(
                    "rho-sign", f"iteration {k}: rho {rho!r}, improvement {actual!r}"
                )
        elif not math.isfinite(actual):
            want = math.inf if actual > 0 else -math.inf
            if rho != want:
                raise Violation("rho", f"iteration {k}: rho {rho!r}, expected {want!r}")
    return probes


# --------------------------------------------------------------------------- C14
def forced_adaptation(nao):
    """The direction of the adaptation if the options alone decide it."""
    if nao["min_share_high_rho"] < 0:
        return "down"
    if nao["high_rho"] == np.inf or nao["min_share_high_rho"] >= 1:
        if nao["min_share_low_rho"] < 0:
            return "keep"
        if nao["low_rho"] == np.inf and nao["good_rho_threshold"] == np.inf:
            return "up"
    return None


def check_noise_sampling(run):
    if run.result is None:
        return {}
    v = View(run)
    if not v.probed:
        return {}
    st = v.states
    from tranquilo.options import NoiseAdaptationOptions

    nao = NoiseAdaptationOptions()._asdict()
    nao.update(v.kw.get("noise_adaptation_options") or {})
    lo_n, hi_n = int(nao["min_n_evals"]), int(nao["max_n_evals"])
    npp0 = v.kw.get("n_evals_per_point")
    if npp0 is None:
        npp0 = lo_n if v.noisy else 1
    npp = [int(it["n_evals_per_point"]) for it in v.iters]
    probes = {"iters": len(npp), "changes": 0, "topup": 0, "accept": 0}
    if npp and npp[0] != int(npp0):
        raise Violation("initial-n-evals", f"{npp[0]} vs {npp0}")
    for k, n in enumerate(npp, start=1):
        if st[k].n_evals_per_point is not None and int(st[k].n_evals_per_point) != n:
            raise Violation(
                "n-evals-record", f"iteration {k}: {st[k].n_evals_per_point} vs {n}"
            )
        if v.noisy:
            if not min(lo_n, npp0) <= n <= max(hi_n, npp0):
                raise Violation("n-evals-limits", f"iteration {k}: {n} not in {lo_n, hi_n}")
            if k > 1 and abs(n - npp[k - 2]) > 1:
                raise Violation("n-evals-jump", f"iteration {k}: {npp[k - 2]} -> {n}")
            if k > 1:
                probes["changes"] += int(n != npp[k - 2])
        elif n != int(npp0):
            raise Violation("n-evals-changed", f"iteration {k}: {n} without noise")
    forced = forced_adaptation(nao) if v.noisy else None
    if forced:
        for k in range(1, len(npp)):
            want = {
                "up": min(npp[k - 1] + 1, hi_n),
                "down": max(npp[k - 1] - 1, lo_n),
                "keep": npp[k - 1],
            }[forced]
            if forced == "up" and st[k].rho == np.inf and npp[k] == npp[k - 1]:
                continue
            probes["forced_" + forced] = probes.get("forced_" + forced, 0) + 1
            if npp[k] != want:
                raise Violation(
                    "n-evals-rule",
                    f"iteration {k + 1}: {npp[k - 1]} -> {npp[k]}, options demand {want}",
                )
    n_start = len([d for d in v.world.delivered if d.it == 0])
    want0 = v.kw.get("n_evals_at_start")
    if want0 is None:
        want0 = 5 if v.noisy else 1
    want0 = int(want0)
    if want0 > 1:
        want0 = int(math.ceil(want0 / v.batch_size) * v.batch_size)
    if n_start != want0:
        raise Violation("start-evals", f"{n_start} evaluations at start, want {want0}")

    n_min, n_max = int(v.accept_opt("n_min")), int(v.accept_opt("n_max"))
    for k in range(1, len(st)):
        s, p = st[k], st[k - 1]
        n = npp[k - 1]
        last_b = v.last_batch_of(k)
        lo, hi = v.it_range(k)
        c = v.candidate_of(k)
        for i in np.asarray(s.model_indices, dtype=int):
            if not v.unique(i):
                continue
            have = v.count_at(i, k, upto_batch=last_b)
            if have < n:
                raise Violation(
                    "too-few-evals",
                    f"iteration {k}: model point {i} has {have} of {n} evaluations",
                )
        first_b = v.iters[k - 1]["n_batches"]
        for i in range(c):
            if not v.unique(i):
                continue
            before = v.count_at(i, k, upto_batch=first_b)
            model_phase = v.count_at(i, k, upto_batch=last_b)
            if model_phase > before:
                probes["topup"] += int(before > 0)
                if model_phase != n:
                    raise Violation(
                        "wrong-evals",
                        f"iteration {k}: point {i} went from {before} to {model_phase} "
                        f"evaluations, requested {n} per point",
                    )
            after = v.count_at(i, k)
            if after > model_phase:
                if v.decider != "noisy" or i != int(p.index):
                    raise Violation(
                        "unexpected-evals",
                        f"iteration {k}: acceptance step evaluated point {i}",
                    )
                if after > max(n_max, model_phase):
                    raise Violation(
                        "incumbent-max",
                        f"iteration {k}: incumbent evaluated {after} > {n_max} times",
                    )
        if v.unique(c):
            got = v.count_at(c, k)
            probes["accept"] += 1
            if v.decider == "noisy":
                if not n_min <= got <= n_max:
                    raise Violation(
                        "acceptance-size",
                        f"iteration {k}: candidate evaluated {got} times, limits "
                        f"{n_min}..{n_max}",
                    )
            else:
                want = 10 if v.decider == "naive_noisy" else 1
                if got != want:
                    raise Violation(
                        "acceptance-size",
                        f"iteration {k}: candidate evaluated {got} times, want {want}",
                    )
            if s.n_evals_acceptance is not None and int(s.n_evals_acceptance) != got:
                raise Violation(
                    "acceptance-record",
                    f"iteration {k}: {s.n_evals_acceptance} recorded, {got} made",
                )
    return probes


# --------------------------------------------------------------------------- C15
def check_records(run):
    if run.result is None:
        return {}
    v = View(run)
    st = v.states
    srf = v.kw.get("search_radius_factor")
    if srf is None:
        srf = 4.25 if v.functype == "scalar" else 5.0
    probes = {"accepted": 0, "rejected": 0, "discarded": 0, "used": 0, "new": 0}
    for k, s in enumerate(st):
        for what, idx, x in (
            ("incumbent", s.index, s.x),
            ("candidate", s.candidate_index, s.candidate_x),
        ):
            idx = int(idx)
            if not 0 <= idx < v.n_xs:
                raise Violation("index-range", f"iteration {k}: {what} index {idx}")
            if not same_vec(v.xs[idx], x):
                raise Violation(
                    "index-vector",
                    f"iteration {k}: {what} {np.asarray(x).tolist()} is not point {idx} "
                    f"{v.xs[idx].tolist()}",
                )
        if k == 0:
            if int(s.index) != 0 or not same_vec(s.x, v.problem.x0):
                raise Violation("start-state", f"{s.index} {s.x}")
            continue
        p = st[k - 1]
        if s.accepted:
            probes["accepted"] += 1
            if int(s.index) != int(s.candidate_index) or not same_vec(s.x, s.candidate_x):
                raise Violation(
                    "accepted-not-incumbent",
                    f"iteration {k}: candidate {s.candidate_index}, incumbent {s.index}",
                )
        else:
            probes["rejected"] += 1
            if int(s.index) != int(p.index) or not same_vec(s.x, p.x) or not close(
                s.fval, p.fval
            ):
                raise Violation("rejected-changed", f"iteration {k}: incumbent changed")
        d = np.asarray(s.x, dtype=float) - np.asarray(p.x, dtype=float)
        step = float(np.sqrt(d @ d))
        if not close(s.step_length, step, rtol=1e-9, atol=1e-300):
            raise Violation("step-length", f"iteration {k}: {s.step_length!r} vs {step!r}")
        if not close(
            s.relative_step_length, step / float(s.trustregion.radius), rtol=1e-9,
            atol=1e-300,
        ):
            raise Violation(
                "relative-step",
                f"iteration {k}: {s.relative_step_length!r} vs "
                f"{step / float(s.trustregion.radius)!r}",
            )
        model = [int(i) for i in np.asarray(s.model_indices).reshape(-1)]
        new = [int(i) for i in np.asarray(s.new_indices).reshape(-1)]
        used = [int(i) for i in np.asarray(s.old_indices_used).reshape(-1)]
        disc = [int(i) for i in np.asarray(s.old_indices_discarded).reshape(-1)]
        for name, arr in (("model", model), ("new", new), ("used", used), ("disc", disc)):
            if len(set(arr)) != len(arr):
                raise Violation("duplicates", f"iteration {k}: {name} {arr}")
            if any(not 0 <= i < v.n_xs for i in arr):
                raise Violation("index-range", f"iteration {k}: {name} {arr}")
        if set(new) & set(used) or set(new) & set(disc) or set(used) & set(disc):
            raise Violation("overlap", f"iteration {k}")
        if set(new) | set(used) != set(model):
            raise Violation(
                "cover-model",
                f"iteration {k}: new {new} + reused {used} != model points {model}",
            )
        if not model:
            raise Violation("empty-model", f"iteration {k}")
        probes["discarded"] += len(disc)
        probes["used"] += len(used)
        probes["new"] += len(new)
        if not v.probed:
            continue
        lo, hi = v.it_range(k)
        c = v.candidate_of(k)
        if any(not lo <= i < c for i in new):
            raise Violation(
                "unknown-new", f"iteration {k}: new points {new}, created {lo}..{c - 1}"
            )
        center = np.asarray(s.trustregion.center, dtype=float)
        dist = np.linalg.norm(v.xs[:lo] - center, axis=1)
        r = float(srf) * float(s.trustregion.radius)
        inside = set(np.nonzero(dist <= r * (1 - 1e-12))[0].tolist())
        maybe = set(np.nonzero(dist <= r * (1 + 1e-12))[0].tolist())
        old = set(used) | set(disc)
        if not inside <= old or not old <= maybe:
            raise Violation(
                "cover-old",
                f"iteration {k}: reused+discarded {sorted(old)}, earlier points near the "
                f"incumbent {sorted(inside)}",
            )
        ci = int(s.candidate_index)
        if not (c <= ci < hi or (ci == int(p.index) and not s.accepted)):
            raise Violation(
                "stale-candidate",
                f"iteration {k}: candidate {ci} was not created in it ({c}..{hi - 1})",
            )
    return probes


# --------------------------------------------------------------------------- C16
def check_batches(run):
    w = run.world
    if w.protocol_errors:
        raise Violation("protocol", w.protocol_errors[0])
    kw = run.sc["kwargs"]
    n_cores = int(kw.get("n_cores", 1))
    for b in w.batches:
        nc = b["n_cores"]
        if b["n_tasks"] < 1:
            raise Violation("empty-batch", f"batch {b['batch']}")
        if int(nc) != nc or not 1 <= nc <= min(n_cores, b["n_tasks"]):
            raise Violation(
                "workers",
                f"batch {b['batch']}: {nc} workers requested for {b['n_tasks']} tasks, "
                f"limit {n_cores}",
            )
        if b["error_handling"] != "continue":
            raise Violation("error-handling", f"{b['error_handling']!r}")
    if run.result is None:
        return {}
    v = View(run)
    bs = v.batch_size
    probes = {"batches": len(w.batches), "multi": sum(b["n_tasks"] > 1 for b in w.batches),
              "full": 0}
    if not v.probed or v.noisy or bs == 1:
        return probes
    if int(kw.get("n_evals_per_point") or 1) != 1:
        return probes
    for k in range(1, len(v.states)):
        mine = [b for b in w.batches if b["it"] == k]
        if not mine:
            raise Violation("no-batch", f"iteration {k}")
        acc = mine[-1]
        if v.decider == "classic_line_search" and acc["n_tasks"] % bs:
            raise Violation(
                "acceptance-batch",
                f"iteration {k}: {acc['n_tasks']} tasks, batch size {bs}",
            )
        # the first batch builds the model unless all points were reused
        target = v.iters[k - 1]["target"]
        lo, _ = v.it_range(k)
        c = v.candidate_of(k)
        if len(mine) == 1:
            continue
        first = mine[0]
        inc = int((kw.get("stagnation_options") or {}).get("sample_increment", 1))
        if first["n_tasks"] % bs:
            # a stagnation batch has the size of the configured increment
            if first["n_tasks"] != inc:
                raise Violation(
                    "model-batch",
                    f"iteration {k}: {first['n_tasks']} tasks, batch size {bs}",
                )
        else:
            probes["full"] += 1
        del target, lo, c
    return probes


# --------------------------------------------------------------------------- C19
class Ambiguous(Exception):
    """Rounding decides which point is meant."""


def drop_order(xs, indices, x0, inc, radius, n_to_drop):
    """Drop far points first, then the inner one of the closest pair, never ``inc``."""
    indices = list(indices)
    for _ in range(n_to_drop):
        pts = xs[indices]
        dist = np.linalg.norm(pts - x0, axis=1)
        clear = dist > radius * (1 + 1e-9)
        if clear.any():
            order = np.sort(dist)
            if len(order) > 1 and order[-1] - order[-2] <= 1e-9 * order[-1]:
                raise Ambiguous
            indices.pop(int(np.argmax(dist)))
            continue
        if (dist > radius * (1 - 1e-9)).any() or len(indices) < 2:
            raise Ambiguous
        gap = np.linalg.norm(pts[:, None, :] - pts[None, :, :], axis=2)
        iu = np.triu_indices(len(pts), 1)
        order = np.sort(gap[iu])
        if len(order) > 1 and order[1] - order[0] <= 1e-9 * order[1]:
            raise Ambiguous
        at = int(np.argmin(gap[iu]))
        i, j = int(iu[0][at]), int(iu[1][at])
        if indices[i] == inc:
            drop = j
        elif indices[j] == inc:
            drop = i
        elif abs(dist[i] - dist[j]) <= 1e-9 * radius:
            raise Ambiguous
        else:
            drop = i if dist[i] < dist[j] else j
        indices.pop(drop)
    return indices


def stagnation_setting(v):
    quick = not v.noisy and v.batch_size == 1
    out = {"min_relative_step_keep": 0.125 if quick else 0.0, "drop": not v.noisy,
           "min_relative_step": 0.05, "sample_increment": 1, "max_trials": 1}
    out.update(v.kw.get("stagnation_options") or {})
    return out


def _check_clusters(v, k, model, target, srf, opts, probes):
    """Of close points one is kept, of others all; missing ones are sampled."""
    s, p = v.states[k], v.states[k - 1]
    lo, _ = v.it_range(k)
    c = v.candidate_of(k)
    radius = float(s.trustregion.radius)
    x0 = np.asarray(p.x, dtype=float)
    step = float(np.linalg.norm(v.xs[c] - x0)) / radius
    batches = [b for b in v.world.batches if b["it"] == k][:-1]
    # a single batch of that size may also have replaced points after a short step
    if (len(batches) > 1 or c - lo == int(opts["sample_increment"])
            or float(opts["min_relative_step_keep"]) > 0
            or step < float(opts["min_relative_step"]) + 1e-6):
        return
    strict = (v.kw.get("sample_filter_options") or {}).get("strictness", 1e-10)
    eps = radius * (float(strict) / target) ** (1 / v.problem.dim)
    dist = np.linalg.norm(v.xs[:lo] - x0, axis=1)
    near = srf * radius
    if (np.abs(dist - near) <= 1e-9 * near).any():
        return
    old = np.flatnonzero(dist <= near)
    kept = np.array([i for i in model if i < lo], dtype=int)
    gap = np.linalg.norm(v.xs[old][:, None, :] - v.xs[kept][None, :, :], axis=2)
    if len(kept) == 0 or (gap.min(axis=1) > eps * (1 + 1e-9)).any():
        raise Violation(
            "cluster-lost",
            f"iteration {k}: an earlier point is further than {eps!r} from all kept "
            f"points {kept.tolist()}",
        )
    own = np.linalg.norm(v.xs[kept][:, None, :] - v.xs[kept][None, :, :], axis=2)
    own[np.diag_indices_from(own)] = np.inf
    if (own < eps * (1 - 1e-9)).any():
        raise Violation(
            "cluster-close",
            f"iteration {k}: kept points {kept.tolist()} are closer than {eps!r}",
        )
    due = int(math.ceil(max(0, target - len(kept)) / v.batch_size) * v.batch_size)
    if c - lo != due:
        raise Violation(
            "sample-size",
            f"iteration {k}: {c - lo} new points, {due} are due for {target} points of "
            f"which {len(kept)} were kept",
        )
    probes["clusters"] += 1
    probes["clustered"] += len(old) - len(kept)


def check_samples(run):
    """Which points each model is built from, and when points are replaced."""
    if run.result is None:
        return {}
    v = View(run)
    if not v.probed or not v.iters:
        return {}
    probes = {"sizes": 0, "exact": 0, "ambiguous": 0, "dropped": 0, "resampled": 0,
              "large": 0, "partly_reused": 0, "long_enough": 0, "clusters": 0,
              "clustered": 0}
    n, bs = v.problem.dim, v.batch_size
    srf = v.kw.get("search_radius_factor")
    if srf is None:
        srf = 4.25 if v.functype == "scalar" else 5.0
    target = v.kw.get("sample_size")
    if target is None:
        target = (2 * n + 1 if v.functype == "scalar"
                  else n + 1 if v.noisy or bs > 1 else n + 2)
    target = int(target)
    opts = stagnation_setting(v)
    inc = int(opts["sample_increment"])
    most = max(1, int(opts["max_trials"]))
    name = v.kw.get("sample_filter") or ("drop_excess" if bs > 1 else "keep_all")
    if "sample_filter" in (v.sc.get("user_components") or []):
        return probes
    factor = (v.kw.get("sample_filter_options") or {}).get("n_max_factor", 3)
    for k in range(1, len(v.states)):
        s, p = v.states[k], v.states[k - 1]
        model = [int(i) for i in np.atleast_1d(s.model_indices)]
        if len(model) < target:
            raise Violation(
                "too-few-points",
                f"iteration {k}: a model of {len(model)} points, configured are {target}",
            )
        probes["sizes"] += 1
        if name == "clustering":
            _check_clusters(v, k, model, target, srf, opts, probes)
            continue
        if int(p.index) not in model:
            raise Violation(
                "incumbent-not-used",
                f"iteration {k}: the model does not use the incumbent {p.index}",
            )
        lo, _ = v.it_range(k)
        c = v.candidate_of(k)
        x0 = np.asarray(p.x, dtype=float)
        radius = float(s.trustregion.radius)
        dist = np.linalg.norm(v.xs[:lo] - x0, axis=1)
        near = srf * radius
        if (np.abs(dist - near) <= 1e-9 * near).any():
            probes["ambiguous"] += 1
            continue
        kept = [int(i) for i in np.flatnonzero(dist <= near)]
        exact = True
        if name == "discard_all":
            kept = [int(p.index)]
        elif name == "drop_excess":
            excess = max(0, len(kept) - int(math.floor(target * factor)))
            n_kept = len(kept) - excess
            try:
                kept = drop_order(v.xs, kept, x0, int(p.index), radius, excess)
            except Ambiguous:
                exact = False
                kept = kept[:n_kept]
        fresh = max(0, target - len(kept))
        fresh = int(math.ceil(fresh / bs) * bs)
        batches = [b for b in v.world.batches if b["it"] == k][:-1]
        first_b = v.iters[k - 1]["n_batches"]
        npp = int(v.iters[k - 1]["n_evals_per_point"])
        if fresh == 0:
            if not exact and npp > 1 or not all(v.unique(i) for i in kept):
                probes["ambiguous"] += 1
                continue
            short = any(v.count_at(i, k, upto_batch=first_b) < npp for i in kept)
            trials = len(batches) - int(short)
        else:
            trials = len(batches) - 1
        if trials < 0 or trials > most or c - lo != fresh + inc * trials:
            raise Violation(
                "sample-size",
                f"iteration {k}: {c - lo} new points in {len(batches)} batches; of "
                f"{target} points {len(kept)} could be reused, batch size {bs}, at most "
                f"{most} times {inc} more for too short steps",
            )
        step = float(np.linalg.norm(v.xs[c] - x0)) / radius
        near_limit = 1e-6
        if trials < most and step < float(opts["min_relative_step"]) - near_limit:
            raise Violation(
                "short-step-kept",
                f"iteration {k}: relative step {step!r} after {trials} resampling rounds "
                f"of {most}, minimum {opts['min_relative_step']}",
            )
        keep = float(opts["min_relative_step_keep"])
        if not trials and len(model) > target and step < keep - near_limit:
            raise Violation(
                "stale-points-kept",
                f"iteration {k}: {len(model)} of {target} points kept although the "
                f"relative step is {step!r}, minimum {keep}",
            )
        probes["long_enough"] += 1
        probes["resampled"] += trials
        probes["large"] += int(len(model) > target)
        probes["partly_reused"] += int(fresh > 0 and len(kept) > 1)
        # sizes, then identities
        size0 = len(kept) + fresh
        dropped = None
        for b in range(0, max(0, size0 - target) + 1):
            size = size0 - b
            for _ in range(trials):
                if opts["drop"] and size > inc:
                    size -= inc
                size += inc
            if size == len(model):
                dropped = b
                break
        if dropped is None:
            raise Violation(
                "model-size",
                f"iteration {k}: the model uses {len(model)} points; {size0} were at hand,"
                f" {target} are configured, {trials} resampling rounds of {inc}",
            )
        if dropped and keep <= 0:
            raise Violation(
                "points-dropped",
                f"iteration {k}: {dropped} points dropped, no minimum step configured",
            )
        if dropped and not trials and size0 - dropped == len(model):
            probes["dropped"] += dropped
        if not exact:
            probes["ambiguous"] += 1
            continue
        try:
            cur = drop_order(v.xs, kept + list(range(lo, lo + fresh)), x0, int(p.index),
                             radius, dropped)
            nxt = lo + fresh
            for _ in range(trials):
                if opts["drop"] and len(cur) > inc:
                    cur = drop_order(v.xs, cur, x0, int(p.index), radius, inc)
                cur = cur + list(range(nxt, nxt + inc))
                nxt += inc
        except Ambiguous:
            probes["ambiguous"] += 1
            continue
        probes["exact"] += 1
        if set(cur) != set(model):
            raise Violation(
                "model-points",
                f"iteration {k}: the model uses points {sorted(model)}, the earlier and "
                f"new points and the configured filter give {sorted(cur)}",
            )
    return probes


# --------------------------------------------------------------------------- C20
def region_frame(v, tr):
    """Center and half width (scalar or vector) of the unit space, and the shape."""
    c = np.asarray(tr.center, dtype=float)
    r = float(tr.radius)
    shape = region_shape(v, tr)
    if shape is None:
        return None
    if shape == "sphere":
        return c, np.full(len(c), r), shape
    half = cube_half_width(r, len(c))
    lo, hi = c - half, c + half
    if v.problem.lb is not None:
        lo = np.maximum(lo, v.problem.lb)
    if v.problem.ub is not None:
        hi = np.minimum(hi, v.problem.ub)
    return (lo + hi) / 2, (hi - lo) / 2, shape


def feature_matrix(u, quadratic):
    m, n = u.shape
    cols = [np.ones(m)] + [u[:, j] for j in range(n)]
    if quadratic:
        for i in range(n):
            for j in range(i, n):
                cols.append(u[:, i] * u[:, j])
    return np.column_stack(cols)


def replace_failures(y):
    """Failed values enter the fit slightly beyond the worst finite ones."""
    out = np.array(y, dtype=float)
    for j in range(out.shape[1]):
        col = out[:, j]
        fin = col[np.isfinite(col)]
        lo, hi = (float(fin.min()), float(fin.max())) if len(fin) else (0.0, 0.0)
        spread = hi - lo
        out[:, j] = np.where(
            np.isnan(col) | (col == np.inf),
            hi + 2 * spread + 1,
            np.where(col == -np.inf, lo - 2 * spread - 1, col),
        )
    return out


def solve_min_norm(a, y, rcond):
    """Minimum norm least-squares solution; None if its rank is not clear cut."""
    if not np.isfinite(a).all() or not np.isfinite(y).all():
        return None
    w, s, vt = np.linalg.svd(a, full_matrices=False)
    if s[0] <= 0:
        return None
    rel = s / s[0]
    if ((rel > 2e-17) & (rel < rcond)).any():
        return None
    keep = rel >= rcond
    return vt[keep].T @ ((w[:, keep].T @ y) / s[keep, None])


class Quad:
    """Reference model of one residual vector in unit coordinates."""

    def __init__(self, coef, n, quadratic):
        self.a = coef[0]
        self.g = coef[1 : n + 1].T
        self.h = None
        if quadratic:
            k = coef.shape[1]
            self.h = np.zeros((k, n, n))
            pos = n + 1
            for i in range(n):
                for j in range(i, n):
                    c = coef[pos]
                    pos += 1
                    if i == j:
                        self.h[:, i, i] = 2 * c
                    else:
                        self.h[:, i, j] = self.h[:, j, i] = c


def reference_fit(v, u, y, start):
    """Coefficients (features x residuals) of the configured fit, or None."""
    from tranquilo.options import FitterOptions

    n = u.shape[1]
    quadratic = v.functype == "scalar"
    target = v.iters[0]["target"]
    n_free = 1 + n + (n * (n + 1) // 2 if quadratic else 0)
    fitter = v.kw.get("model_fitter")
    if fitter is None:
        fitter = "ols" if not quadratic or target >= n_free else "tranquilo"
    if not isinstance(fitter, str) or fitter.startswith("user"):
        return None, None
    residualize = v.kw.get("residualize")
    if residualize is None:
        residualize = fitter == "tranquilo"
    opts = dict(FitterOptions()._asdict())
    opts.update(v.kw.get("model_fitter_options") or {})
    base = start if residualize else np.zeros_like(start)
    z = y - base
    f = feature_matrix(u, quadratic)
    second = f.shape[1] - n - 1
    coef = None
    if fitter == "ols":
        coef = solve_min_norm(f, z, 1e-6)
    elif fitter == "tranquilo":
        w = np.array(
            [1 / opts["p_intercept"]] + [1 / opts["p_linear"]] * n
            + [1 / opts["p_square"]] * second
        )
        coef = solve_min_norm(f * w, z, 1e-6)
        if coef is not None:
            coef = coef * w[:, None]
    elif fitter == "ridge":
        pen = np.array(
            [0.0] + [opts["l2_penalty_linear"]] * n
            + [opts["l2_penalty_square"]] * second
        )
        coef = solve_min_norm(
            np.vstack([f, np.diag(np.sqrt(pen))]),
            np.vstack([z, np.zeros((len(pen), z.shape[1]))]),
            1e-4,
        )
    elif fitter == "powell":
        if len(u) <= n + 1:
            coef = solve_min_norm(f[:, : n + 1], z, 1e-6)
            if coef is not None:
                coef = np.vstack([coef, np.zeros((second, z.shape[1]))])
        elif len(u) >= n_free:
            coef = solve_min_norm(f, z, 1e-6)
        else:
            return "interpolate", fitter
    if coef is None:
        return None, fitter
    coef = coef.copy()
    coef[0] += base
    return coef, fitter


def aggregate_reference(functype, q):
    if functype == "scalar":
        return float(q.a[0]), q.g[0], q.h[0]
    if functype == "least_squares":
        return float(q.a @ q.a), 2 * q.g.T @ q.a, 2 * q.g.T @ q.g
    return float(q.a.sum()), q.g.sum(axis=0), -(q.g.T @ q.g) / 2


def model_data(v, k):
    """Points and averages of the evaluations recorded for the model of iteration k."""
    s = v.states[k]
    idx = [int(i) for i in np.atleast_1d(s.model_indices)]
    last = v.last_batch_of(k)
    ys = []
    for i in idx:
        vec = v.fvecs[i]
        if v.unique(i):
            vec = vec[: v.count_at(i, k, upto_batch=last)]
        elif not v.constant(i):
            return None
        if len(vec) == 0:
            return None
        with np.errstate(all="ignore"):
            ys.append(np.mean(vec, axis=0))
    return idx, v.xs[idx], np.array(ys, dtype=float)


def check_models(run):
    if run.result is None:
        return {}
    v = View(run)
    if not v.probed or not v.iters:
        return {}
    probes = {"fits": 0, "with_failures": 0, "repeated": 0, "over": 0, "exact": 0,
              "under": 0, "ill_conditioned": 0, "cube": 0}
    first = [d for d in v.world.delivered if d.batch == 0]
    start = np.mean([expected_fvec(d, v.problem.n_resid) for d in first], axis=0)
    quadratic = v.functype == "scalar"
    for k in range(1, len(v.states)):
        s = v.states[k]
        frame = region_frame(v, s.trustregion)
        data = model_data(v, k)
        if frame is None or data is None:
            continue
        idx, xs, raw = data
        y = replace_failures(raw)
        big = float(np.max(np.abs(y)))
        if not math.isfinite(big) or big > 1e70 or not np.isfinite(start).all():
            continue
        center, half, shape = frame
        n = len(center)
        u = (xs - center) / half
        # rounding of the mapping to the unit space
        noise = 4e-16 * float(np.max(np.abs(xs))) / float(np.min(half))
        if noise > 1e-7:
            continue
        coef, fitter = reference_fit(v, u, y, start)
        if coef is None:
            probes["ill_conditioned"] += int(fitter is not None)
            continue
        m = s.model
        test_u = np.vstack([np.zeros((1, n)), np.eye(n), -np.eye(n),
                            np.full((1, n), 1 / math.sqrt(n)), u])
        test_x = center + test_u * half
        with np.errstate(all="ignore"):
            got = np.array([scalar_predict(m, x) for x in test_x])
        if isinstance(coef, str):
            want = y[:, 0]
            got = got[-len(u):]
            sv = np.linalg.svd(feature_matrix(u, quadratic), compute_uv=False)
            lin = np.linalg.svd(feature_matrix(u[: n + 1], False), compute_uv=False)
            if sv[-1] < 1e-5 * sv[0] or lin[-1] < 1e-4 * lin[0]:
                probes["ill_conditioned"] += 1
                continue
            mag = float(np.max(np.abs(want))) + 1e-300
            tol = 1e-5 * mag
        else:
            c0, g, h = aggregate_reference(v.functype, Quad(coef, n, quadratic))
            want = np.array([c0 + g @ z + 0.5 * z @ h @ z for z in test_u])
            span = max(1.0, float(np.max(np.abs(coef))) / max(big, 1e-300))
            mag = float(np.max(np.abs(want))) + 1e-300
            if v.functype == "scalar":
                mag = max(mag, big)
            else:
                mag = max(mag, big**2 if v.functype == "least_squares" else big)
            # rounding when the start values are subtracted and added back
            small = np.linalg.svd(feature_matrix(u, quadratic), compute_uv=False)
            small = small[small > 1e-6 * small[0]][-1]
            lost = 1e-13 * float(np.max(np.abs(start))) / max(big, 1e-300) / small
            if lost > 1e-3:
                probes["ill_conditioned"] += 1
                continue
            tol = (1e-6 * span + 1e4 * noise * span + lost * span) * mag
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            j = int(np.argmax(bad))
            raise Violation(
                "model-fit",
                f"iteration {k}: the surrogate model predicts {got[j]!r} at "
                f"{test_x[j].tolist() if len(got) == len(test_x) else xs[j].tolist()}, "
                f"the {fitter} fit to the recorded evaluations of its {len(idx)} points "
                f"gives {want[j]!r}",
            )
        probes["fits"] += 1
        probes["cube"] += int(shape == "cube")
        probes["with_failures"] += int(not np.isfinite(raw).all())
        probes["repeated"] += int(any(len(v.fvecs[i]) > 1 for i in idx))
        nf = 1 + n + (n * (n + 1) // 2 if quadratic else 0)
        probes["over" if len(idx) > nf else "exact" if len(idx) == nf else "under"] += 1
    return probes


# --------------------------------------------------------------------------- C18
def recorded_noise(v, k):
    """Evaluations from which the noise of iteration k is estimated, per point.

    None if membership of a point near the edge of the region cannot be told.
    """
    from tranquilo.options import VarianceEstimatorOptions

    opts = dict(VarianceEstimatorOptions()._asdict())
    opts.update(v.kw.get("variance_estimator_options") or {})
    tr = v.states[k].trustregion
    last = v.last_batch_of(k)
    known = v.candidate_of(k)
    far = np.linalg.norm(v.xs[:known] - np.asarray(tr.center), axis=1)
    limit = float(tr.radius) * float(opts["max_distance_factor"])
    if (np.abs(far - limit) <= 1e-9 * limit).any():
        return None
    vecs, vals = [], []
    for i in np.flatnonzero(far <= limit):
        if not v.unique(i):
            return None
        n = v.count_at(i, k, upto_batch=last)
        vec, val = v.fvecs[i][:n], v.fvals[i][:n]
        ok = np.isfinite(vec).all(axis=1) & np.isfinite(val)
        vecs.append(vec[ok])
        vals.append(val[ok])
    most = max((len(x) for x in vals), default=0)
    cutoff = max(2, min(most, int(opts["min_n_evals"])))
    return [(a, b) for a, b in zip(vecs, vals) if len(b) >= cutoff]


def pooled(samples):
    """Average of the samples' (co)variances, weighted by their sizes."""
    if not samples:
        return 0.0
    total = sum(len(s) for s in samples)
    out = 0.0
    for s in samples:
        d = np.asarray(s, dtype=float) - np.mean(s, axis=0)
        cov = d.T @ d / (len(s) - 1) if d.ndim == 2 else float(d @ d) / (len(s) - 1)
        out = out + len(s) / total * cov
    return out


def sizes_due(variance, have, effect, need, n_min, n_max):
    """Additional evaluations of the incumbent and evaluations of the candidate.

    The standard error of the difference of both averages has to be small enough for an
    effect of the predicted size to be detected with the configured levels:
    variance * (1 / n1 + 1 / n2) <= (effect / need) ** 2.
    """
    allowed = (effect / need) ** 2
    both = 2 * variance / allowed
    if have <= both:
        more, cand = both - have, both
    else:
        rest = allowed - variance / have
        more, cand = 0.0, (variance / rest if rest > 0 else math.inf)
    more = min(max(more, 0.0), max(0, n_max - have))
    cand = min(max(cand, n_min), n_max)
    return more, cand


def check_noise_effort(run):
    """Evaluations spent on acceptance decisions, and reaction to the noise itself."""
    if run.result is None:
        return {}
    v = View(run)
    if not v.probed or not v.noisy:
        return {}
    probes = {"sizes": 0, "inner": 0, "incumbent": 0, "with_failures": 0,
              "falls": 0, "clear_up": 0, "clear_down": 0, "clear_keep": 0}
    if v.decider == "noisy":
        _check_sizes(v, probes)
    _check_reaction(v, probes)
    return probes


def _check_sizes(v, probes):
    from statistics import NormalDist

    conf, power = float(v.accept_opt("confidence_level")), float(
        v.accept_opt("power_level"))
    n_min, n_max = int(v.accept_opt("n_min")), int(v.accept_opt("n_max"))
    need = NormalDist().inv_cdf(conf) + NormalDist().inv_cdf(power)
    for k in range(1, len(v.states)):
        s, p = v.states[k], v.states[k - 1]
        c, inc = v.candidate_of(k), int(p.index)
        if not v.unique(c) or not v.unique(inc):
            continue
        samples = recorded_noise(v, k)
        if samples is None:
            continue
        variance = float(pooled([b for _, b in samples]))
        last = v.last_batch_of(k)
        have = v.count_at(inc, k, upto_batch=last)
        more = v.count_at(inc, k) - have
        got = v.count_at(c, k)
        with np.errstate(all="ignore"):
            base = scalar_predict(s.model, p.x)
            effect = base - scalar_predict(s.model, v.xs[c])
        mag = max(_model_magnitude(s.model), abs(base))
        if not (math.isfinite(effect) and math.isfinite(variance)):
            continue
        level = float(np.max(np.abs(np.concatenate([b for _, b in samples])))) if (
            samples) else 0.0
        # rounding: of the prediction and of the variance
        low, high = [], []
        err = 1e-12 * mag + 1e-9 * abs(effect)
        verr = 1e-9 * variance + 1e-13 * level * math.sqrt(variance) + 1e-30 * level**2
        for e in (effect - err, effect + err):
            for w in (variance - verr, variance + verr):
                a, b = sizes_due(max(w, 0.0), have, max(e, 1e-8), need, n_min, n_max)
                low.append(a)
                high.append(b)
        lo1, hi1 = math.ceil(min(low) - 1e-6), math.ceil(max(low) + 1e-6)
        lo2, hi2 = math.ceil(min(high) - 1e-6), math.ceil(max(high) + 1e-6)
        hi2 = min(hi2, n_max)
        probes["sizes"] += 1
        probes["inner"] += int(n_min < got < n_max)
        probes["incumbent"] += int(more > 0)
        probes["with_failures"] += int(not all(
            np.isfinite(v.fvals[i]).all() for i in range(c)))
        if not lo2 <= got <= hi2 or not lo1 <= more <= hi1:
            raise Violation(
                "acceptance-effort",
                f"iteration {k}: {got} evaluations of the candidate and {more} more of "
                f"the incumbent (had {have}); recorded noise variance {variance!r} and "
                f"predicted improvement {effect!r} call for {lo2}..{hi2} and "
                f"{lo1}..{hi1}",
            )


def run_solver(v, region):
    """The solver configured for spherical regions, as function of g and h, or None.

    Solvers stop early, and rho of an approximate step can be far from rho of the exact
    one. What the solvers themselves achieve is judged by C12 and C21.
    """
    from tranquilo.models import ScalarModel
    from tranquilo.solve_subproblem import get_subsolver

    name = v.kw.get("sphere_subsolver", "gqtpar_fast")
    if not isinstance(name, str) or name.startswith("user"):
        return None
    solve = get_subsolver(
        sphere_solver=name, cube_solver="bntr_fast", retry_with_fallback=True,
        user_options=v.kw.get("subsolver_options"),
    )

    def step(c0, g, h):
        model = ScalarModel(
            intercept=c0, linear_terms=g, square_terms=h,
            scale=region.effective_radius, shift=region.effective_center,
        )
        return np.asarray(solve(model, region).x_unit, dtype=float)

    return step


N_REFERENCE_DRAWS = 300


def _check_reaction(v, probes):
    """Whether the number of evaluations per point follows the noise in the steps."""
    from tranquilo.options import NoiseAdaptationOptions

    nao = NoiseAdaptationOptions()._asdict()
    nao.update(v.kw.get("noise_adaptation_options") or {})
    draws = int(nao["rho_noise_n_draws"])
    npp = [int(it["n_evals_per_point"]) for it in v.iters]
    lo_n, hi_n = int(nao["min_n_evals"]), int(nao["max_n_evals"])
    first = [d for d in v.world.delivered if d.batch == 0]
    start = np.mean([expected_fvec(d, v.problem.n_resid) for d in first], axis=0)
    if v.run.sub_fired or not np.isfinite(start).all():
        return
    for k in range(1, len(npp)):
        s = v.states[k]
        samples = recorded_noise(v, k)
        if samples is None or npp[k - 1] not in range(lo_n, hi_n + 1):
            continue
        shares = _simulated_shares(v, k, samples, start, nao, draws)
        if shares is None:
            continue
        top, bottom = shares
        up, down = min(npp[k - 1] + 1, hi_n), max(npp[k - 1] - 1, lo_n)
        if top == "yes":
            want, why = down, "clear_down"
        elif top == "no" and (bottom == "yes" or s.rho >= nao["good_rho_threshold"]):
            want, why = npp[k - 1], "clear_keep"
        elif top == "no" and bottom == "no":
            want, why = up, "clear_up"
        else:
            continue
        if abs(float(s.rho) - nao["good_rho_threshold"]) < 1e-6:
            continue
        probes[why] += 1
        probes["falls"] += int(npp[k] < npp[k - 1])
        if npp[k] != want:
            raise Violation(
                "noise-reaction",
                f"iteration {k + 1}: {npp[k - 1]} -> {npp[k]} evaluations per point, the "
                f"recorded noise calls for {want}",
            )


def _simulated_shares(v, k, samples, start, nao, draws):
    """Whether the shares of good and acceptable simulated steps exceed their limits.

    Only if the own simulation leaves no doubt given the number of draws made.
    """
    s = v.states[k]
    frame = region_frame(v, s.trustregion)
    data = model_data(v, k)
    if frame is None or data is None or frame[2] != "sphere":
        return None
    idx, xs, raw = data
    center, half, _ = frame
    y = replace_failures(raw)
    if not np.isfinite(y).all() or float(np.max(np.abs(y))) > 1e30:
        return None
    u = (xs - center) / half
    if 4e-16 * float(np.max(np.abs(xs))) / float(np.min(half)) > 1e-9:
        return None
    coef, fitter = reference_fit(v, u, y, start)
    if coef is None or isinstance(coef, str):
        return None
    n, quadratic = len(center), v.functype == "scalar"
    f = feature_matrix(u, quadratic)
    sv = np.linalg.svd(f, compute_uv=False)
    if sv[-1] < 1e-3 * sv[0]:
        return None
    truth = aggregate_reference(v.functype, Quad(coef, n, quadratic))
    fitted = f @ coef

    def value(model, z):
        c0, g, h = model
        return float(c0 + g @ z + 0.5 * z @ h @ z)

    r = y.shape[1]
    cov = np.atleast_2d(pooled([a for a, _ in samples])) if samples else np.zeros((r, r))
    if cov.shape != (r, r) or not np.isfinite(cov).all():
        return None
    if nao["ignore_corelation"]:
        cov = np.diag(np.diag(cov))
    w, q = np.linalg.eigh(cov)
    root = q * np.sqrt(np.clip(w, 0, None))
    rng = np.random.default_rng(k)
    n_ref = N_REFERENCE_DRAWS if np.max(np.abs(root)) > 0 else 1
    rhos = []
    u0 = np.zeros(n)
    step = run_solver(v, s.trustregion)
    if step is None:
        return None
    for _ in range(n_ref):
        noise = rng.standard_normal((len(u), r)) @ root.T
        c2, _ = reference_fit(v, u, fitted + noise, start)
        if c2 is None:
            return None
        sim = aggregate_reference(v.functype, Quad(c2, n, quadratic))
        try:
            z = step(*sim)
        except Exception:
            return None
        expected = sim[0] - value(sim, z)
        mag = max(abs(sim[0]), float(np.max(np.abs(sim[1]))), float(np.max(np.abs(sim[2]))))
        if not expected > 1e-9 * mag:
            rhos.append(math.nan)
            continue
        rhos.append((value(truth, u0) - value(truth, z)) / expected)
    rhos = np.array(rhos)
    if np.isnan(rhos).any():
        return None

    def verdict(limit, share):
        sure = float(np.mean(rhos > limit + 0.05))
        may = float(np.mean(rhos > limit - 0.05))
        if n_ref == 1:
            return "yes" if sure > share else "no" if may <= share else None

        def doubt(p):
            p = (p * n_ref + 1) / (n_ref + 2)
            var = max(p * (1 - p), share * (1 - share) if 0 < share < 1 else 0.0)
            return 4.5 * math.sqrt(var * (1 / draws + 1 / n_ref)) + 0.02

        if sure - doubt(sure) > share:
            return "yes"
        if may + doubt(may) < share:
            return "no"
        return None

    return (verdict(nao["high_rho"], nao["min_share_high_rho"]),
            verdict(nao["low_rho"], nao["min_share_low_rho"]))


# --------------------------------------------------------------------------- C21
def ball_decrease(g, h):
    """Greatest decrease of g.s + s.h.s / 2 over the unit ball."""
    w, q = np.linalg.eigh((h + h.T) / 2)
    c = q.T @ g
    low = float(w[0])

    def value(z):
        return -float(c @ z + 0.5 * z @ (w * z))

    if low > 0:
        z = -c / w
        if z @ z <= 1:
            return value(z)
    scale = max(float(np.max(np.abs(w))), float(np.max(np.abs(c))), 1e-300)
    a = max(0.0, -low) + 1e-15 * scale
    z = -c / (w + a)
    if np.linalg.norm(z) < 1:
        # hard case: complete with a direction of most negative curvature
        if low < 0:
            z[0] += math.sqrt(max(0.0, 1 - z @ z)) * (1 if c[0] <= 0 else -1)
            n = np.linalg.norm(z)
            z = z / n if n > 1 else z
        return value(z)
    b = a + float(np.linalg.norm(c)) + scale
    for _ in range(200):
        mid = 0.5 * (a + b)
        if np.linalg.norm(c / (w + mid)) > 1:
            a = mid
        else:
            b = mid
    return value(-c / (w + b))


def cauchy_decrease_box(g, h, x0):
    """Decrease of g.s + s.h.s / 2 along the projected gradient path in [-1, 1]^n."""
    x = x0.copy()
    d = -g.copy()
    d = np.where(((d < 0) & (x <= -1)) | ((d > 0) & (x >= 1)), 0.0, d)
    # directions without gradient: the solvers' absolute tolerance
    d = np.where(np.abs(d) < 1e-5, 0.0, d)
    best = 0.0
    for _ in range(len(g) + 1):
        if not d.any():
            break
        with np.errstate(all="ignore"):
            t = np.where(d > 0, (1 - x) / d, np.where(d < 0, (-1 - x) / d, np.inf))
        end = float(t.min())
        slope = float((g + h @ (x - x0)) @ d)
        curve = float(d @ h @ d)
        if slope >= 0:
            break
        step = min(end, -slope / curve) if curve > 0 else end
        cand = x + step * d
        best = max(best, -float(g @ (cand - x0) + 0.5 * (cand - x0) @ h @ (cand - x0)))
        if step < end:
            break
        x = x + end * d
        d = np.where(t <= end * (1 + 1e-14), 0.0, d)
    return best


SPHERE_SHARE = 0.7
CUBE_SHARE = 0.8


def check_steps(run):
    """Decrease that each candidate achieves in the model of its iteration."""
    if run.result is None or run.sub_fired or "subsolver_fail" in run.sc:
        return {}
    v = View(run)
    if not v.probed:
        return {}
    probes = {"sphere": 0, "cube": 0, "inner": 0, "negative_curvature": 0,
              "active": 0, "saddle": 0}
    if int((v.kw.get("subsolver_options") or {}).get("maxiter", 20)) < 8:
        return probes
    for k in range(1, len(v.states)):
        s = v.states[k]
        frame = region_frame(v, s.trustregion)
        if frame is None:
            continue
        center, half, shape = frame
        n = len(center)
        m = s.model
        h = m.square_terms
        h = np.zeros((n, n)) if h is None else np.asarray(h, dtype=float)
        u0 = (np.asarray(s.trustregion.center, dtype=float) - center) / half
        u1 = (v.xs[v.candidate_of(k)] - center) / half
        lin = np.asarray(m.linear_terms, dtype=float)
        if not (np.isfinite(h).all() and np.isfinite(lin).all()):
            continue
        g = lin + h @ u0
        size = max(float(np.max(np.abs(g))), float(np.max(np.abs(h))))
        noise = 4e-16 * float(np.max(np.abs(v.xs))) / float(np.min(half))
        if not 1e-3 <= size <= 1e5 or noise > 1e-8:
            continue
        d = u1 - u0
        got = -float(g @ d + 0.5 * d @ h @ d) / size
        if shape == "sphere":
            if v.kw.get("sphere_subsolver", "gqtpar_fast") not in (
                "gqtpar", "gqtpar_fast"
            ):
                continue
            if np.max(np.abs(g)) < 1e-12 * size:
                # a saddle point; every direction looks the same along some axis
                if np.min(np.diag(h)) - np.linalg.eigvalsh(h)[0] < 1e-3 * size:
                    continue
                probes["saddle"] += 1
            best, share = ball_decrease(g / size, h / size), SPHERE_SHARE
        else:
            if v.kw.get("cube_subsolver", "bntr_fast") not in ("bntr", "bntr_fast"):
                continue
            if not 1e-2 <= size <= 1e3:
                continue
            best, share = cauchy_decrease_box(g / size, h / size, u0), CUBE_SHARE
        if best < 1e-4:
            continue
        probes[shape] += 1
        probes["negative_curvature"] += int(np.linalg.eigvalsh(h)[0] < -1e-6 * size)
        probes["inner"] += int(np.max(np.abs(u1)) < 0.9)
        probes["active"] += int(shape == "cube" and np.max(np.abs(u0)) >= 1)
        if not got >= share * best:
            raise Violation(
                "poor-step",
                f"iteration {k}: the candidate decreases the model ({shape}) by "
                f"{got * size!r}, at least {share * best * size!r} was due: gradient "
                f"{g.tolist()}, hessian {h.tolist()}, from {u0.tolist()} to "
                f"{u1.tolist()}",
            )
    return probes
