"""Which scenarios each property is decided on: weighted lanes of generators."""
import copy

import numpy as np

from dst.gen import chance, gen_faults, gen_opt, gen_pool, gen_problem, pick, profile

SWEET = {
    "least_squares": (["lin", "sep", "sin", "rosen"], [0.3, 0.2, 0.25, 0.25]),
    "scalar": (["lin", "sep", "sin", "rosen", "cos", "quart"],
               [0.2, 0.15, 0.15, 0.2, 0.15, 0.15]),
    "likelihood": (["lin", "sep", "sin"], [0.4, 0.3, 0.3]),
}


def opt(**over):
    prof = profile(**over)

    def make(rng):
        return gen_opt(rng, prof)

    return make


def tight_radius(rng):
    """Bounds, large steps, aggressive radii: many active bounds."""
    return gen_opt(rng, profile(
        p_bounds=1.0, p_radius_options=0.8, p_disable=0.6, p_faults=0.4,
        families=SWEET,
    ))


def line_search(p_bounds=0.5, **over):
    def make(rng):
        return gen_opt(rng, profile(
            p_bounds=p_bounds, p_noisy=0.0, p_parallel=1.0,
            deciders=(["classic_line_search"], [1.0]), families=SWEET,
            p_disable=0.5, **over,
        ))

    return make


def noisy(**over):
    prof = profile(p_noisy=1.0, families=SWEET, p_disable=0.5, **over)

    def make(rng):
        return gen_opt(rng, prof)

    return make


def adaptation(rng):
    """Noise adaptation whose direction is decided by the options alone."""
    sc = gen_opt(rng, profile(p_noisy=1.0, families=SWEET, p_disable=1.0,
                              p_faults=0.2, p_parallel=0.2))
    kw = sc["kwargs"]
    nao = kw["noise_adaptation_options"]
    nao.setdefault("min_n_evals", int(rng.integers(1, 3)))
    nao.setdefault("max_n_evals", nao["min_n_evals"] + int(rng.integers(1, 5)))
    which = pick(rng, ["up", "down", "keep"], [0.45, 0.35, 0.2])
    nao.pop("high_rho", None)
    nao.pop("low_rho", None)
    if which == "up":
        nao["high_rho"] = float("inf")
        nao["low_rho"] = float("inf")
        nao["good_rho_threshold"] = float("inf")
        nao["min_share_low_rho"] = 0.0
    elif which == "down":
        nao["min_share_high_rho"] = -1.0
    else:
        nao["min_share_high_rho"] = 2.0
        nao["min_share_low_rho"] = -1.0
    lo, hi = nao["min_n_evals"], nao["max_n_evals"]
    kw["n_evals_per_point"] = int(rng.integers(lo, hi + 1))
    kw["stopping_max_iterations"] = int(rng.integers(3, 9))
    kw["stopping_max_criterion_evaluations"] = 400
    return sc


def timed(rng):
    """Time limits, slow and stalled workers."""
    sc = gen_opt(rng, profile(p_disable=0.7, p_default_probe=0.0))
    kw = sc["kwargs"]
    p = sc["pool"]
    p.pop("inner", None)
    p.setdefault("order", "fifo")
    p["lat"] = pick(rng, ["unit", "exp", "heavy", "uniform"])
    kw["stopping_max_time"] = float(
        np.round(pick(rng, [0.0, 1.0, 5.0, 20.0, 60.0, 1e4]) * rng.uniform(0.5, 1.5), 3)
    )
    if chance(rng, 0.4):
        p["stall"] = [
            [int(rng.integers(0, 20)), int(rng.integers(0, 3)),
             float(pick(rng, [10.0, 50.0, 1e5]))]
            for _ in range(int(rng.integers(1, 4)))
        ]
    if chance(rng, 0.4):
        p["clock_jump"] = [
            [int(rng.integers(1, 15)), float(pick(rng, [-3600.0, -50.0, 60.0, 1e7]))]
        ]
    return sc


def budget_edges(rng):
    """Tiny budgets, large batches, extreme objectives."""
    sc = gen_opt(rng, profile(
        iters=(1, 6), evals=(1, 30), p_parallel=0.6, p_noisy=0.25, p_disable=0.6,
        families={
            "least_squares": (["const", "step", "abs", "lin", "exp"], [1, 1, 1, 1, 1]),
            "scalar": (["const", "linear", "l1", "step", "exp"], [1, 1, 1, 1, 1]),
            "likelihood": (["const", "lin"], [1, 1]),
        },
    ))
    return sc


def domain_failures(rng):
    return gen_opt(rng, profile(p_faults=1.0, p_domain=1.0, p_disable=0.5))


def heavy_failures(rng):
    return gen_opt(rng, profile(
        p_faults=1.0, p_burst=0.6, p_disable=0.6, p_noisy=0.25, p_parallel=0.5,
    ))


def fallback_only(rng):
    """Subsolver failures, also permanent ones, also without the retry."""
    sc = gen_opt(rng, profile(p_subfail=0.0, p_disable=0.5, p_bounds=0.6))
    calls = sorted({int(rng.integers(0, 25)) for _ in range(int(rng.integers(1, 8)))})
    if chance(rng, 0.3):
        calls = [-1]
    sc["subsolver_fail"] = {
        "calls": calls,
        "exc": pick(rng, ["ValueError", "ZeroDivisionError", "LinAlgError",
                          "RuntimeError", "SimFailure", "FloatingPointError"]),
    }
    if chance(rng, 0.35):
        sc["kwargs"]["retry_subproblem_with_fallback"] = False
    return sc


def tolerances(rng):
    sc = gen_opt(rng, profile(
        p_disable=0.08, p_tolerances=0.95, iters=(10, 40), evals=(60, 300), p_noisy=0.1,
    ))
    return sc


TOLERANCES = [f"convergence_{a}_{b}_tolerance" for a in ("absolute", "relative")
              for b in ("criterion", "gradient", "params")]


def one_tolerance(rng):
    """A single loose tolerance on fast-moving objectives: the cause is unambiguous."""
    sc = gen_opt(rng, profile(
        p_disable=0.0, p_tolerances=0.0, iters=(10, 30), evals=(60, 300), p_noisy=0.05,
        p_components=0.3, families=SWEET,
    ))
    kw = sc["kwargs"]
    on = pick(rng, TOLERANCES)
    for name in TOLERANCES:
        kw[name] = 0.0
    kw[on] = float(np.round(pick(rng, [0.02, 0.1, 0.3, 0.7]) * rng.uniform(0.5, 1.5), 4))
    if chance(rng, 0.5):
        sc["problem"]["shift"] = float(pick(rng, [0.0, 0.5, -3.0, 100.0]))
    return sc


def stagnating(rng):
    """Small or no steps: the resampling and dropping loops run to their limits."""
    sc = gen_opt(rng, profile(
        iters=(1, 8), evals=(20, 200), p_noisy=0.1, p_disable=0.8, p_parallel=0.3,
        families={
            "least_squares": (["const", "step", "lin", "sep"], [2, 1, 1, 1]),
            "scalar": (["const", "lin", "step", "sep"], [2, 1, 1, 1]),
            "likelihood": (["const", "lin"], [1, 1]),
        },
    ))
    st = sc["kwargs"].setdefault("stagnation_options", {})
    st["min_relative_step"] = float(pick(rng, [0.3, 0.9, 2.0]))
    st["max_trials"] = int(rng.integers(1, 5))
    if chance(rng, 0.5):
        st["drop"] = chance(rng, 0.5)
    if chance(rng, 0.4):
        st["sample_increment"] = int(rng.integers(1, 4))
    return sc


def batch_failures(**over):
    """Bursts long enough to take out whole batches."""
    make = opt(p_parallel=1.0, p_faults=0.0, **over)

    def lane(rng):
        sc = make(rng)
        kinds = ["raise", "nan", "pinf"]
        faults = {}
        for _ in range(int(rng.integers(1, 4))):
            start = int(rng.integers(1, 50))
            kind = pick(rng, kinds, [0.6, 0.2, 0.2])
            for k in range(start, start + int(rng.integers(3, 26))):
                faults[k] = [k, kind] + (["ValueError"] if kind == "raise" else [])
        first = int(sc["kwargs"].get("n_evals_at_start", 1))
        if first > 1 or sc["kwargs"].get("noisy"):
            faults = {k: f for k, f in faults.items() if k >= 20}
        sc["faults"] = [faults[k] for k in sorted(faults)]
        return sc

    return lane


# --------------------------------------------------------------------------- C05
def hist_ops(rng):
    spec, mag = gen_problem(rng, profile(p_bounds=0.0))
    big = chance(rng, 0.25)
    n_ops = int(rng.integers(6, 30))
    ops = [["xs", int(rng.integers(1, 6)), pick(rng, ["one", "list", "array"]), 12]]
    for _ in range(n_ops):
        r = rng.random()
        if r < 0.35:
            n = int(rng.integers(1, 400 if big else 12))
            ops.append(["xs", n, pick(rng, ["one", "list", "array"]), 12])
        elif r < 0.8:
            ops.append(["eval", int(rng.integers(1, 300 if big else 10)),
                        int(rng.integers(1, 6 if big else 4)),
                        pick(rng, ["recent", "random"])])
        else:
            ops.append(["cmp"])
    sc = {"v": 1, "kind": "hist", "problem": spec, "ops": ops,
          "opseed": int(rng.integers(1 << 30)), "n_cores": int(rng.integers(1, 6))}
    kw = {"stopping_max_criterion_evaluations": 300}
    sc["pool"] = gen_pool(rng, kw, 10)
    sc["pool"].pop("inner", None)
    sc["noise"] = {"sd": 0.1, "seed": int(rng.integers(1 << 30))}
    sc["faults"], _ = gen_faults(rng, profile(), spec, kw, mag)
    # the first evaluation succeeds
    sc["faults"] = [f for f in sc["faults"] if f[0] >= 5]
    if chance(rng, 0.4):
        sc["pool"]["abort"] = [
            [int(rng.integers(1, n_ops)), int(rng.integers(-1, 5)),
             pick(rng, ["PoolBroken", "KeyboardInterrupt", "OSError", "SystemExit"])]
            for _ in range(int(rng.integers(1, 4)))
        ]
    sc["ret"] = pick(rng, ["native", "list", "tuple", "strided", "readonly"]) if (
        spec["functype"] != "scalar"
    ) else pick(rng, ["native", "npfloat", "zero_d", "one_d"])
    if chance(rng, 0.3):
        sc["mutate_arg"] = True
    return sc


def long_run(rng):
    """Record growth beyond the first allocation within an optimization."""
    sc = gen_opt(rng, profile(
        p_disable=1.0, p_noisy=0.5, p_faults=0.4, max_dim={
            "least_squares": 3, "scalar": 2, "likelihood": 3},
        families=SWEET, p_default_probe=0.0,
    ))
    kw = sc["kwargs"]
    kw["stopping_max_criterion_evaluations"] = 1300
    kw["stopping_max_iterations"] = 40
    if kw.get("noisy"):
        kw["stopping_max_iterations"] = 12
        kw["noise_adaptation_options"] = {
            "rho_noise_n_draws": 2, "min_n_evals": 20, "max_n_evals": 30}
        kw.pop("n_evals_per_point", None)
    else:
        kw["n_evals_per_point"] = 15
        kw.pop("acceptance_decider", None)
    return sc


# --------------------------------------------------------------------------- C06
def det(rng):
    base = gen_opt(rng, profile(
        p_parallel=0.75, p_noisy=0.25, p_faults=0.5, p_default_probe=0.4,
        iters=(3, 14), evals=(15, 90),
    ))
    kw = base["kwargs"]
    kw["batch_size"] = int(kw.get("batch_size") or kw.get("n_cores", 1))
    variants = []
    menu = ["pool", "n_cores", "global_seed", "clock_base", "alloc", "repeat",
            "mutate_arg", "use_global_rng", "ret", "joblib"]
    for _ in range(int(rng.integers(1, 4))):
        var = {}
        for name in menu:
            if not chance(rng, 0.35):
                continue
            if name == "pool":
                var["pool"] = gen_pool(rng, kw, 10)
            elif name == "joblib":
                var["pool"] = {"inner": "joblib"}
            elif name == "n_cores":
                var["n_cores"] = int(rng.integers(1, kw["batch_size"] + 1))
            elif name == "global_seed":
                var["global_seed"] = int(rng.integers(1 << 30))
            elif name == "clock_base":
                var["clock_base"] = float(pick(rng, [0.0, 1e3, 1e9]))
            elif name == "alloc":
                var["alloc"] = int(rng.integers(1, 5000))
            elif name == "mutate_arg":
                var["mutate_arg"] = chance(rng, 0.5)
            elif name == "use_global_rng":
                var["use_global_rng"] = True
            elif name == "ret" and base["problem"]["functype"] != "scalar":
                var["ret"] = pick(rng, ["native", "list", "tuple", "strided",
                                        "readonly"])
        if not var:
            var = {"global_seed": int(rng.integers(1 << 30)),
                   "pool": gen_pool(rng, kw, 10)}
        variants.append(var)
    return {"v": 1, "kind": "det", "base": base, "variants": variants}


def fresh(rng):
    prof = profile(p_noisy=0.2, iters=(3, 10), evals=(15, 60))
    return {
        "v": 1, "kind": "fresh", "hashseed": int(rng.integers(1, 4_000_000)),
        "scs": [gen_opt(rng, prof) for _ in range(12)],
    }


# --------------------------------------------------------------------------- C07
SMALL = dict(iters=(3, 8), evals=(12, 50), max_dim={
    "least_squares": 4, "scalar": 2, "likelihood": 3})


def _switches(rng, n_threads):
    mean = float(pick(rng, [5, 30, 150, 600]))
    n = int(rng.integers(5, 300))
    gaps = 1 + rng.geometric(1.0 / mean, size=n)
    return [[int(g), int(rng.integers(0, n_threads))] for g in gaps]


def _same_kwargs(rng, base, prof):
    """Another scenario whose options (and start, bounds) equal those of base."""
    sc = copy.deepcopy(base)
    sc["problem"]["pseed"] = int(rng.integers(1 << 30))
    if chance(rng, 0.5):
        sc["problem"]["target"] = [
            t + float(np.round(rng.normal(), 6)) for t in sc["problem"]["target"]]
    sc["pool"] = gen_pool(rng, base["kwargs"], 10)
    if chance(rng, 0.5):
        sc["faults"], sc["domain_faults"] = [], []
    return sc


def iso(rng):
    mode = pick(rng, ["after", "aborted", "nested", "threads", "shared", "reuse",
                      "threads_shared"], [0.2, 0.15, 0.15, 0.2, 0.15, 0.05, 0.1])
    prof = profile(p_noisy=0.2, p_default_probe=0.5, **SMALL)
    a = gen_opt(rng, prof)
    sc = {"v": 1, "kind": "iso", "mode": mode, "scs": [a]}
    if mode in ("after", "aborted"):
        for _ in range(int(rng.integers(1, 4))):
            b = gen_opt(rng, prof)
            if chance(rng, 0.3):
                b = _same_kwargs(rng, a, prof)
            if mode == "aborted":
                make_abort(rng, b)
            sc["scs"].append(b)
        # the run under test is judged after the others
        sc["scs"].reverse()
        sc["mode"] = "after"
        if chance(rng, 0.4):
            sc["scs"].insert(0, copy.deepcopy(sc["scs"][-1]))
    elif mode == "nested":
        b = gen_opt(rng, prof) if chance(rng, 0.7) else _same_kwargs(rng, a, prof)
        if chance(rng, 0.2):
            make_abort(rng, b)
        sc["scs"].append(b)
        sc["at"] = sorted({int(rng.integers(0, 15)) for _ in range(2)})
        a["pool"].pop("crash", None)
        a["pool"].pop("dup", None)
    elif mode == "threads":
        for _ in range(int(rng.integers(1, 3))):
            b = gen_opt(rng, prof) if chance(rng, 0.7) else _same_kwargs(rng, a, prof)
            if chance(rng, 0.15):
                make_abort(rng, b)
            sc["scs"].append(b)
        sc["switches"] = _switches(rng, len(sc["scs"]))
    elif mode == "shared":
        for _ in range(int(rng.integers(1, 3))):
            sc["scs"].append(_same_kwargs(rng, a, prof))
        sc["order"] = [int(i) for i in rng.permutation(len(sc["scs"]))] + [0]
    elif mode == "threads_shared":
        sc["mode"] = "threads"
        sc["share"] = True
        for _ in range(int(rng.integers(1, 3))):
            sc["scs"].append(_same_kwargs(rng, a, prof))
        sc["switches"] = _switches(rng, len(sc["scs"]))
    return sc


def make_abort(rng, sc):
    sc["pool"].pop("inner", None)
    sc["pool"].setdefault("lat", "zero")
    r = rng.random()
    if r < 0.5:
        sc["pool"]["abort"] = [
            [int(rng.integers(0, 8)), int(rng.integers(-1, 4)),
             pick(rng, ["PoolBroken", "KeyboardInterrupt", "OSError", "SystemExit"])]
        ]
    else:
        k = int(rng.integers(0, 20))
        sc["faults"] = [f for f in sc["faults"] if f[0] != k]
        sc["faults"].append(
            [k, "exit", pick(rng, ["KeyboardInterrupt", "SystemExit"])])
    return sc


# --------------------------------------------------------------------------- C17
def interrupt(rng):
    how = pick(rng, ["line", "evaluation", "evaluator", "component", "subsolver"],
               [0.35, 0.2, 0.2, 0.15, 0.1])
    prof = profile(p_noisy=0.25, p_subfail=0.0, p_default_probe=0.5, iters=(3, 9),
                   evals=(12, 60), p_parallel=0.4)
    base = gen_opt(rng, prof)
    sc = {"v": 1, "kind": "int", "how": how, "base": base}
    if how == "line":
        sc["frac"] = float(rng.random())
        sc["exc"] = pick(rng, ["KeyboardInterrupt", "SystemExit"], [0.7, 0.3])
        if chance(rng, 0.4):
            base["subsolver_fail"] = {
                "calls": [-1] if chance(rng, 0.5) else
                sorted({int(rng.integers(0, 12)) for _ in range(4)}),
                "exc": "ValueError",
            }
    elif how == "evaluation":
        k = int(rng.integers(0, 40))
        base["faults"] = [f for f in base["faults"] if f[0] != k]
        base["faults"].append(
            [k, "exit", pick(rng, ["KeyboardInterrupt", "SystemExit"])])
        base["domain_faults"] = []
        base["pool"].pop("dup", None)
        base["pool"].pop("crash", None)
        if chance(rng, 0.2):
            base["pool"] = {"inner": "joblib"}
    elif how == "evaluator":
        base["pool"].pop("inner", None)
        base["pool"].setdefault("lat", "zero")
        base["pool"]["abort"] = [
            [int(rng.integers(0, 18)), int(rng.integers(-1, 6)),
             pick(rng, ["PoolBroken", "KeyboardInterrupt", "OSError", "SystemExit",
                        "RuntimeError", "ValueError", "MemoryError", "TimeoutError",
                        "LinAlgError"])]
        ]
    elif how == "component":
        base["component_fail"] = {
            "component": pick(rng, ["sampler", "model_fitter", "sample_filter"]),
            "at": int(rng.integers(0, 10)),
            "exc": pick(rng, ["ValueError", "RuntimeError", "KeyboardInterrupt",
                              "SystemExit", "LinAlgError", "SimFailure",
                              "ZeroDivisionError", "AssertionError"]),
        }
    else:
        base["subsolver_fail"] = {
            "calls": [int(rng.integers(0, 14))],
            "exc": pick(rng, ["KeyboardInterrupt", "SystemExit"]),
        }
    return sc


# --------------------------------------------------------------------------- C10
def conv(rng, faulty=None):
    from scipy.optimize import lsq_linear

    from dst.problems import Problem

    functype = pick(rng, ["least_squares", "scalar"], [0.65, 0.35])
    family = "lin"
    if functype == "least_squares":
        family = pick(rng, ["lin", "sep"], [0.7, 0.3])
    else:
        family = pick(rng, ["lin", "sep"], [0.6, 0.4])
    dim = int(rng.integers(2, 6 if functype == "least_squares" else 4))
    x0 = np.round(rng.uniform(-3, 3, size=dim), 6)
    if np.max(np.abs(x0)) < 0.3:
        x0[0] = 1.0
    target = np.round(x0 + rng.uniform(-2, 2, size=dim), 6)
    spec = {
        "functype": functype, "family": family, "dim": dim,
        "pseed": int(rng.integers(1 << 30)), "x0": x0.tolist(),
        "target": target.tolist(), "scale": 1.0, "shift": 0.0,
        "nonlin": 0.0 if family != "lin" else float(np.round(rng.uniform(0, 0.5), 3)),
        "lb": None, "ub": None,
    }
    spec["nres"] = dim + int(rng.integers(0, 3))
    bounded = chance(rng, 0.45) and family in ("lin", "sep")
    if bounded:
        lo = x0 - rng.uniform(0.1, 2.0, size=dim)
        hi = x0 + rng.uniform(0.1, 2.0, size=dim)
        lo = np.where(rng.random(dim) < 0.3, -np.inf, np.round(lo, 6))
        hi = np.where(rng.random(dim) < 0.3, np.inf, np.round(hi, 6))
        lo, hi = np.minimum(lo, x0), np.maximum(hi, x0)
        side = rng.random()
        spec["lb"] = None if side < 0.15 else [repr(float(v)) for v in lo]
        spec["ub"] = None if side > 0.85 else [repr(float(v)) for v in hi]
    p = Problem(spec)
    lb = np.full(dim, -np.inf) if p.lb is None else p.lb
    ub = np.full(dim, np.inf) if p.ub is None else p.ub
    if family == "lin":
        sol = lsq_linear(p.A, p.A @ p.target - p.nl * p.c, bounds=(lb, ub), tol=1e-14)
        xopt = np.clip(sol.x, lb, ub)
    else:
        xopt = np.clip(target, lb, ub)
    fopt = p.fval(xopt)
    fopt = min(fopt, p.fval(np.clip(target, lb, ub)))
    kw = {"seed": int(rng.integers(1 << 20)), "disable_convergence": True}
    bs = 1
    if chance(rng, 0.4):
        kw["n_cores"] = int(rng.integers(2, 6))
        bs = kw["n_cores"]
        if functype == "least_squares" and chance(rng, 0.4):
            kw["acceptance_decider"] = "classic_line_search"
    if chance(rng, 0.3):
        kw["sampler"] = pick(rng, ["random_hull", "optimal_hull"])
    if chance(rng, 0.25):
        kw["cube_subsolver"] = pick(rng, ["bntr", "fallback_cube"])
    if chance(rng, 0.25):
        kw["sphere_subsolver"] = pick(rng, ["gqtpar", "gqtpar_fast"])
    base = {"v": 1, "kind": "opt", "problem": spec, "kwargs": kw,
            "probe": True, "faults": [], "domain_faults": [],
            "ret": "native"}
    base["pool"] = gen_pool(rng, kw, 10)
    n_fail = 0
    if chance(rng, 0.75 if faulty is None else float(faulty)):
        horizon = int(pick(rng, [6, 15, 40]))
        rate = pick(rng, [0.1, 0.3, 0.6, 1.0])
        most, free = CONV_FAILURES[functype], 0
        kinds = ["raise", "nan", "pinf", "nan1", "pinf1"]
        start = int(rng.integers(1, 30))
        for k in range(start, start + horizon):
            if n_fail < most and k >= free and rng.random() < rate:
                free = k + 3
                kind = pick(rng, kinds)
                f = [k, kind]
                if kind == "raise":
                    f.append(pick(rng, ["ValueError", "RuntimeError", "OSError"]))
                elif kind in ("nan1", "pinf1"):
                    f.append(int(rng.integers(0, 4)))
                base["faults"].append(f)
                n_fail += 1
    factor = (CONV_EVALS_FAIL if n_fail else CONV_EVALS)[functype]
    kw["stopping_max_criterion_evaluations"] = int(
        factor * (dim + 2) * max(1.0, bs / 2.0) + (30 + horizon if n_fail else 0)
    )
    kw["stopping_max_iterations"] = 600
    if chance(rng, 0.15):
        base["subsolver_fail"] = {
            "calls": sorted({int(rng.integers(0, 20)) for _ in range(5)}),
            "exc": "ValueError",
        }
    return {"v": 1, "kind": "conv", "base": base,
            "expect": {"fopt": float(fopt), "tol": CONV_TOL_FAIL if n_fail else CONV_TOL}}


def conv_clean(rng):
    return conv(rng, faulty=False)


def conv_group(rng):
    """Several runs with failed evaluations; all but a few must get there."""
    group = [conv(rng, faulty=True) for _ in range(CONV_GROUP[0])]
    return {"v": 1, "kind": "convgroup", "group": group, "most": CONV_GROUP[1],
            "stuck": CONV_GROUP[2]}


# runs per group, runs that may miss the optimum, runs that may make no real progress;
# measured on the unchanged tree: 13 and 0 of 6000
CONV_GROUP = (16, 4, 2)
# evaluations per (dimension + 2); on the unchanged tree 8000 runs without failed
# evaluations needed at most 4 for a gap of 1%, 99% of those with failures 20
CONV_EVALS = {"least_squares": 25, "scalar": 40}
CONV_EVALS_FAIL = {"least_squares": 60, "scalar": 90}
CONV_TOL = 1e-3
CONV_TOL_FAIL = 1e-2
CONV_FAILURES = {"least_squares": 3, "scalar": 1}


def fits(**over):
    """Every fitter with its options, sample sizes on both sides of identification."""
    args = dict(p_components=0.9, p_disable=0.7, p_faults=0.7)
    args.update(over)
    make = opt(**args)

    def lane(rng):
        sc = make(rng)
        kw = sc["kwargs"]
        if chance(rng, 0.6):
            fitter = pick(rng, ["ols", "ridge", "tranquilo", "powell"])
            kw["model_fitter"] = fitter
            fo = {}
            if fitter == "ridge":
                if chance(rng, 0.5):
                    fo["l2_penalty_linear"] = float(pick(rng, [0.0, 0.01, 0.3]))
                if chance(rng, 0.5):
                    fo["l2_penalty_square"] = float(pick(rng, [0.01, 0.1, 2.0]))
            elif fitter == "tranquilo" and chance(rng, 0.5):
                fo["p_intercept"] = float(pick(rng, [0.01, 0.05, 0.5]))
                fo["p_linear"] = float(pick(rng, [0.2, 0.4, 0.8]))
            if fo:
                kw["model_fitter_options"] = fo
            if chance(rng, 0.3):
                kw["residualize"] = chance(rng, 0.7)
        if chance(rng, 0.5):
            dim = sc["problem"]["dim"]
            free = 1 + dim
            if sc["problem"]["functype"] == "scalar":
                free += dim * (dim + 1) // 2
            kw["sample_size"] = max(dim + 1, int(free + rng.integers(-3, 4)))
        return sc

    return lane


def steps(**over):
    """The trust-region solvers themselves, from starts inside and at the bounds."""
    args = dict(p_subfail=0.0, p_components=0.3, p_default_probe=0.0, p_disable=0.7,
                iters=(6, 30))
    args.update(over)
    make = opt(**args)

    def lane(rng):
        sc = make(rng)
        kw = sc["kwargs"]
        for name, known in (("cube_subsolver", ["bntr", "bntr_fast"]),
                            ("sphere_subsolver", ["gqtpar", "gqtpar_fast"])):
            kw.pop(name, None)
            if chance(rng, 0.4):
                kw[name] = pick(rng, known)
        kw.pop("subsolver_options", None)
        if chance(rng, 0.4):
            o = {}
            if chance(rng, 0.7):
                o["conjugate_gradient_method"] = pick(
                    rng, ["cg", "steihaug_toint", "trsbox"])
            if chance(rng, 0.4):
                o["maxiter"] = int(rng.integers(8, 40))
            if chance(rng, 0.3):
                o["maxiter_gradient_descent"] = int(rng.integers(2, 9))
            if chance(rng, 0.2):
                o["k_easy"] = float(pick(rng, [0.05, 0.1, 0.15]))
            kw["subsolver_options"] = o
        return sc

    return lane


def thin(rng):
    """Models that are linear or flat in some directions, for every inner method."""
    families = {
        "least_squares": (["lin", "sep", "sin"], [0.5, 0.3, 0.2]),
        "scalar": (["linear", "trough", "saddle"], [0.1, 0.5, 0.4]),
        "likelihood": (["lin", "sep"], [0.7, 0.3]),
    }
    sc = steps(p_bounds=1.0, families=families, p_components=0.1, p_faults=0.3,
               functypes=(["scalar", "least_squares", "likelihood"], [0.75, 0.2, 0.05]),
               max_dim={"scalar": 5, "least_squares": 6, "likelihood": 4},
               p_noisy=0.1, evals=(80, 200))(rng)
    prob, kw = sc["problem"], sc["kwargs"]
    if prob["functype"] == "least_squares" and prob["dim"] > 1:
        prob["nres"] = int(rng.integers(1, prob["dim"]))
    if prob["family"] in ("trough", "saddle"):
        # a gradient that is small compared with the curvature
        prob["tilt"] = float(np.round(10 ** rng.uniform(-3.5, -0.5), 6))
        prob["target"] = list(prob["x0"])
        prob["shift"] = 0.0
        kw.pop("radius_options", None)
    kw["cube_subsolver"] = pick(rng, ["bntr", "bntr_fast"])
    kw["subsolver_options"] = {
        "conjugate_gradient_method": pick(
            rng, ["cg", "steihaug_toint", "trsbox"], [0.15, 0.6, 0.25]),
    }
    return sc


def tilted(rng):
    """Short runs that start near a saddle point or in a trough, with bounds."""
    sc = thin(rng)
    prob = sc["problem"]
    while prob["functype"] != "scalar" or prob["dim"] < 2:
        sc = thin(rng)
        prob = sc["problem"]
    prob["family"] = pick(rng, ["saddle", "trough"], [0.8, 0.2])
    prob["target"] = list(prob["x0"])
    prob["shift"] = 0.0
    sc["kwargs"]["stopping_max_iterations"] = int(rng.integers(1, 4))
    sc["kwargs"].pop("radius_options", None)
    # bounds that cut the first regions
    x0 = np.array(prob["x0"])
    reach = 0.1 * max(1e-3, float(np.max(np.abs(x0))))
    prob["tilt"] = float(reach * 10 ** rng.uniform(-3.0, -1.0))
    prob["lb"] = [repr(float(v)) for v in x0 - reach * rng.uniform(0.2, 3, len(x0))]
    prob["ub"] = [repr(float(v)) for v in x0 + reach * rng.uniform(0.2, 3, len(x0))]
    prob["bound_pattern"] = "two"
    o = sc["kwargs"]["subsolver_options"]
    o["conjugate_gradient_method"] = pick(
        rng, ["cg", "steihaug_toint", "trsbox"], [0.15, 0.6, 0.25])
    return sc


def saddle(rng):
    """Models whose gradient vanishes although the function can be improved."""
    families = {"scalar": (["saddle"], [1.0]), "likelihood": (["balanced"], [1.0])}
    sc = steps(p_bounds=0.0, families=families,
               functypes=(["scalar", "likelihood"], [0.3, 0.7]),
               max_dim={"scalar": 4, "likelihood": 5}, p_components=0.0, p_faults=0.0,
               p_noisy=0.0, iters=(3, 6))(rng)
    prob = sc["problem"]
    if prob["dim"] < 2:
        prob["dim"] = 2
        prob["x0"] = [prob["x0"][0], 1.0]
    if "nres" in prob:
        prob["nres"] = 2 * (prob["dim"] + int(rng.integers(0, 2)))
    prob["target"] = list(prob["x0"])
    prob["shift"] = 0.0
    return sc


def effort(**over):
    """Noise of every size relative to the steps, all levels of the power analysis."""
    args = dict(p_noisy=1.0, p_disable=0.8, p_subfail=0.05, p_default_probe=0.0,
                p_faults=0.4, families=SWEET)
    args.update(over)
    make = opt(**args)

    def lane(rng):
        sc = make(rng)
        kw = sc["kwargs"]
        kw["acceptance_decider"] = "noisy"
        o = dict(kw.get("acceptance_decider_options", {}))
        if chance(rng, 0.4):
            o["confidence_level"] = float(pick(rng, [0.6, 0.8, 0.9, 0.99]))
        if chance(rng, 0.4):
            o["power_level"] = float(pick(rng, [0.6, 0.8, 0.9, 0.99]))
        if chance(rng, 0.5):
            o["n_min"] = int(rng.integers(1, 4))
            o["n_max"] = o["n_min"] + int(pick(rng, [5, 30, 100, 400]) * rng.uniform(0.5, 1))
        kw["acceptance_decider_options"] = o
        if chance(rng, 0.4):
            kw["variance_estimator_options"] = {
                "max_distance_factor": float(pick(rng, [0.5, 1.0, 2.0, 10.0])),
                "min_n_evals": int(rng.integers(1, 7)),
            }
        kw["stopping_max_criterion_evaluations"] = 3000
        sc["noise"]["sd"] = _noise_sd(rng, sc)
        return sc

    return lane


def _noise_sd(rng, sc):
    """From no noise at all to noise that hides every improvement."""
    if chance(rng, 0.2):
        return 0.0
    return float(10 ** rng.uniform(-3, 0.7)) * float(sc["problem"]["scale"])


def reaction(rng):
    """Many simulated steps, so that the reaction to the noise is beyond doubt."""
    sc = effort(p_bounds=0.0, p_components=0.2, p_faults=0.3, iters=(3, 8),
                p_parallel=0.2)(rng)
    kw = sc["kwargs"]
    if chance(rng, 0.4):
        kw["acceptance_decider"] = pick(rng, ["classic", "naive_noisy"])
    nao = kw["noise_adaptation_options"]
    nao["rho_noise_n_draws"] = int(rng.integers(60, 121))
    if chance(rng, 0.6):
        for name in ("min_n_evals", "max_n_evals", "high_rho", "low_rho"):
            nao.pop(name, None)
        kw["n_evals_per_point"] = int(rng.integers(1, 5))
    if chance(rng, 0.3):
        nao["min_share_high_rho"] = float(pick(rng, [0.3, 0.5, 0.9]))
    if chance(rng, 0.3):
        nao["min_share_low_rho"] = float(pick(rng, [0.3, 0.5, 0.7]))
    if chance(rng, 0.4):
        nao["good_rho_threshold"] = float(pick(rng, [0.5, 2.0, 100.0]))
    kw["stopping_max_iterations"] = int(rng.integers(3, 7))
    if sc["noise"]["sd"]:
        sc["noise"]["sd"] = float(10 ** rng.uniform(-2.0, 1.3)) * sc["problem"]["scale"]
    return sc


def samples(**over):
    """Filters, sample sizes and search radii that make points compete."""
    args = dict(p_components=0.7, p_disable=0.8, p_default_probe=0.0, p_subfail=0.1,
                iters=(8, 30), evals=(60, 400))
    args.update(over)
    make = opt(**args)

    def lane(rng):
        sc = make(rng)
        kw = sc["kwargs"]
        if chance(rng, 0.5):
            kw["sample_filter"] = pick(
                rng, ["keep_all", "drop_excess", "discard_all", "clustering"],
                [0.3, 0.4, 0.1, 0.2])
            kw.pop("sample_filter_options", None)
            if kw["sample_filter"] == "clustering" and chance(rng, 0.8):
                kw["sample_filter_options"] = {
                    "strictness": float(10 ** rng.uniform(-3, 1.5))
                }
            if kw["sample_filter"] == "drop_excess" and chance(rng, 0.7):
                kw["sample_filter_options"] = {"n_max_factor": int(rng.integers(1, 3))}
        if chance(rng, 0.4):
            kw["search_radius_factor"] = float(pick(rng, [0.5, 1.5, 3.0, 10.0]))
        if chance(rng, 0.4):
            kw["sample_size"] = int(sc["problem"]["dim"] + 1 + rng.integers(0, 8))
        if chance(rng, 0.4):
            st = kw.setdefault("stagnation_options", {})
            st["min_relative_step_keep"] = float(
                pick(rng, [0.0, 0.125, 0.5, 0.9], [0.4, 0.2, 0.2, 0.2]))
            if chance(rng, 0.4):
                st["min_relative_step"] = float(pick(rng, [0.05, 0.3, 0.9]))
                st["max_trials"] = int(rng.integers(1, 5))
        return sc

    return lane


# --------------------------------------------------------------------------- table
GENERIC = opt()
LANES = {
    "C01": [(0.35, "generic", opt(p_bounds=1.0)),
            (0.25, "active-bounds", tight_radius),
            (0.2, "line-search", line_search(p_bounds=1.0)),
            (0.1, "noisy", noisy(p_bounds=1.0)),
            (0.1, "fallback", opt(p_bounds=1.0, p_subfail=1.0))],
    "C02": [(0.5, "generic", opt(p_noisy=0.1)),
            (0.25, "line-search", line_search()),
            (0.25, "failures", opt(p_noisy=0.0, p_faults=1.0, p_disable=0.6))],
    "C03": [(0.4, "generic", GENERIC), (0.3, "noisy", noisy()),
            (0.3, "line-search", line_search())],
    "C04": [(0.35, "failures", heavy_failures), (0.2, "domain", domain_failures),
            (0.1, "batch-failures", batch_failures(p_disable=0.7)),
            (0.15, "noisy", noisy(p_faults=1.0)),
            (0.2, "line-search", line_search(p_faults=1.0))],
    "C05": [(0.4, "generic", opt(p_noisy=0.3, p_parallel=0.6)),
            (0.5, "record-operations", hist_ops), (0.1, "growth", long_run)],
    "C06": [(0.985, "schedules", det), (0.015, "fresh-interpreter", fresh)],
    "C07": [(1.0, "isolation", iso)],
    "C08": [(0.3, "generic", GENERIC), (0.25, "timed", timed),
            (0.2, "budget-edges", budget_edges), (0.1, "noisy", noisy()),
            (0.15, "stagnation", stagnating)],
    "C09": [(0.45, "tolerances", tolerances), (0.4, "one-tolerance", one_tolerance),
            (0.15, "generic", GENERIC)],
    "C10": [(0.6, "recovery", conv_clean), (0.4, "recovery-share", conv_group)],
    "C11": [(0.6, "radius", opt(p_radius_options=0.95, p_disable=0.7)),
            (0.2, "failures", heavy_failures),
            (0.2, "noisy", noisy(p_radius_options=0.8))],
    "C12": [(0.4, "generic", opt(p_bounds=0.6, p_disable=0.5)),
            (0.35, "fallback", fallback_only),
            (0.25, "active-bounds", tight_radius)],
    "C13": [(0.4, "generic", opt(p_disable=0.5)), (0.3, "line-search", line_search()),
            (0.3, "noisy", noisy())],
    "C14": [(0.5, "noisy", noisy(p_default_probe=0.0)), (0.3, "adaptation", adaptation),
            (0.1, "generic", GENERIC), (0.1, "stagnation", stagnating)],
    "C15": [(0.45, "generic", opt(p_components=0.8, p_disable=0.5)),
            (0.15, "stagnation", stagnating), (0.2, "line-search", line_search()), (0.2, "noisy", noisy())],
    "C16": [(0.45, "parallel", opt(p_parallel=1.0, p_disable=0.5, p_noisy=0.1)),
            (0.25, "line-search", line_search()),
            (0.2, "batch-failures", batch_failures(p_disable=0.7, p_noisy=0.1)),
            (0.1, "stagnation", stagnating)],
    "C17": [(1.0, "interrupt", interrupt)],
    "C18": [(0.5, "effort", effort()), (0.35, "reaction", reaction),
            (0.15, "failures", effort(p_faults=1.0, p_burst=0.5))],
    "C19": [(0.4, "samples", samples()), (0.2, "stagnation", stagnating),
            (0.2, "parallel", samples(p_parallel=1.0)), (0.1, "noisy", noisy()),
            (0.1, "failures", samples(p_faults=1.0, p_burst=0.6))],
    "C20": [(0.55, "fits", fits()), (0.15, "line-search", line_search(p_faults=0.7)),
            (0.15, "noisy", fits(p_noisy=1.0)), (0.15, "failures", heavy_failures)],
    "C21": [(0.15, "steps", steps(p_bounds=0.3)), (0.2, "bounded", steps(p_bounds=1.0)),
            (0.15, "failures", steps(p_faults=1.0, p_burst=0.6)),
            (0.1, "noisy", steps(p_noisy=1.0)),
            (0.15, "thin", thin), (0.1, "saddle", saddle),
            (0.15, "tilted", tilted)],
}


def make_scenario(prop, rng):
    lanes = LANES[prop]
    w = np.array([ln[0] for ln in lanes])
    j = int(rng.choice(len(lanes), p=w / w.sum()))
    sc = lanes[j][2](rng)
    sc["lane"] = lanes[j][1]
    return sc
