"""Swarm generator of scenarios. Every scenario is explicit JSON."""
import numpy as np

from dst.problems import random_domain_fault


def pick(rng, items, p=None):
    if p is not None:
        p = np.asarray(p, dtype=float)
        p = p / p.sum()
    return items[int(rng.choice(len(items), p=p))]


def chance(rng, p):
    return bool(rng.random() < p)


BASE = {
    "functypes": (["least_squares", "scalar", "likelihood"], [0.5, 0.35, 0.15]),
    "p_noisy": 0.15,
    "p_bounds": 0.5,
    "p_parallel": 0.4,
    "p_components": 0.6,
    "p_faults": 0.65,
    "p_default_probe": 0.25,
    "max_dim": {"least_squares": 5, "scalar": 3, "likelihood": 4},
    "iters": (4, 22),
    "evals": (15, 150),
    "fault_kinds": (
        ["raise", "nan", "pinf", "nan1", "pinf1", "ninf", "vast"],
        [0.35, 0.2, 0.2, 0.1, 0.1, 0.05, 0.03],
    ),
    "p_start_fault": 0.0,
    "p_subfail": 0.1,
    "p_domain": 0.3,
    "p_burst": 0.4,
    "families": {
        "least_squares": (
            ["lin", "sep", "sin", "rosen", "exp", "const", "abs", "step"],
            [0.25, 0.15, 0.2, 0.15, 0.1, 0.05, 0.05, 0.05],
        ),
        "scalar": (
            ["lin", "sep", "sin", "rosen", "cos", "linear", "l1", "quart", "const",
             "step"],
            [0.15, 0.1, 0.1, 0.15, 0.15, 0.1, 0.05, 0.1, 0.05, 0.05],
        ),
        "likelihood": (["lin", "sep", "sin", "const"], [0.4, 0.3, 0.2, 0.1]),
    },
    "p_tolerances": 0.3,
    "p_radius_options": 0.35,
    "p_disable": 0.25,
    "deciders": None,
    "p_zero_start": 0.03,
    "p_time": 0.0,
}


def profile(**over):
    out = dict(BASE)
    out.update(over)
    return out


def gen_problem(rng, prof):
    functype = pick(rng, *prof["functypes"])
    dim = int(rng.integers(1, prof["max_dim"][functype] + 1))
    family = pick(rng, *prof["families"][functype])
    x0 = rng.uniform(-3, 3, size=dim)
    mag = pick(rng, [1.0, 10.0, 0.1, 1000.0], [0.7, 0.12, 0.12, 0.06])
    x0 = np.round(x0 * mag, 6)
    if not np.any(x0):
        x0[0] = 1.0
    if chance(rng, prof["p_zero_start"]):
        x0 = np.zeros(dim)
        mag = 1.0
    target = np.round(x0 + mag * rng.uniform(-2, 2, size=dim), 6)
    spec = {
        "functype": functype,
        "family": family,
        "dim": dim,
        "pseed": int(rng.integers(1 << 30)),
        "x0": x0.tolist(),
        "target": target.tolist(),
        "scale": pick(rng, [1.0, 1e-3, 1e3], [0.8, 0.1, 0.1]),
        "shift": pick(rng, [0.0, 10.0, -10.0], [0.6, 0.2, 0.2]),
        "nonlin": float(np.round(rng.uniform(0, 0.6), 3)),
        "lb": None,
        "ub": None,
    }
    if functype != "scalar":
        spec["nres"] = max(1, dim + int(rng.integers(-1, 4)))
    if chance(rng, prof["p_bounds"]):
        add_bounds(rng, spec, x0, mag)
    return spec, mag


def add_bounds(rng, spec, x0, mag):
    n = len(x0)
    pattern = pick(
        rng, ["two", "partial", "lower", "upper", "active", "tight"],
        [0.3, 0.2, 0.15, 0.15, 0.1, 0.1],
    )
    lo = x0 - mag * rng.uniform(0.05, 2.0, size=n)
    hi = x0 + mag * rng.uniform(0.05, 2.0, size=n)
    if pattern == "partial":
        lo = np.where(rng.random(n) < 0.5, -np.inf, lo)
        hi = np.where(rng.random(n) < 0.5, np.inf, hi)
    elif pattern == "active":
        side = rng.random(n)
        lo = np.where(side < 0.4, x0, lo)
        hi = np.where(side > 0.6, x0, hi)
    elif pattern == "tight":
        lo = x0 - mag * rng.uniform(1e-3, 0.1, size=n)
        hi = x0 + mag * rng.uniform(1e-3, 0.1, size=n)
    lo = np.where(np.isfinite(lo), np.round(lo, 6), lo)
    hi = np.where(np.isfinite(hi), np.round(hi, 6), hi)
    lo = np.minimum(lo, x0)
    hi = np.maximum(hi, x0)
    if pattern == "active":
        lo = np.where(hi - lo < 1e-9, x0 - mag, lo)
    spec["bound_pattern"] = pattern
    spec["lb"] = None if pattern == "upper" else [repr(float(v)) for v in lo]
    spec["ub"] = None if pattern == "lower" else [repr(float(v)) for v in hi]


def gen_kwargs(rng, prof, spec, mag):
    functype = spec["functype"]
    dim = spec["dim"]
    kw = {"seed": int(rng.integers(1 << 20))}
    if chance(rng, 0.1):
        kw["seed"] = pick(rng, [0, 0, 1, 2**32 - 1, None])
        if kw["seed"] is None:
            del kw["seed"]
    kw["stopping_max_iterations"] = int(rng.integers(*prof["iters"]))
    kw["stopping_max_criterion_evaluations"] = int(rng.integers(*prof["evals"]))
    noisy = chance(rng, prof["p_noisy"])
    if noisy:
        kw["noisy"] = True
        nao = {"rho_noise_n_draws": int(rng.integers(2, 9))}
        if chance(rng, 0.5):
            nao["min_n_evals"] = int(rng.integers(1, 4))
            nao["max_n_evals"] = nao["min_n_evals"] + int(rng.integers(0, 6))
        if chance(rng, 0.2):
            nao["ignore_corelation"] = False
        if chance(rng, 0.3):
            nao["high_rho"] = float(pick(rng, [0.3, 0.9, 2.0]))
            nao["low_rho"] = float(pick(rng, [0.0, 0.1, 0.8]))
        kw["noise_adaptation_options"] = nao
        if chance(rng, 0.4):
            # the starting number of evaluations has to respect the limits
            lo = nao.get("min_n_evals", 1)
            hi = nao.get("max_n_evals", 30)
            kw["n_evals_per_point"] = int(rng.integers(lo, min(hi, lo + 4) + 1))
        if chance(rng, 0.4):
            kw["n_evals_at_start"] = int(rng.integers(2, 9))
        kw["stopping_max_iterations"] = min(kw["stopping_max_iterations"], 9)
        if chance(rng, 0.5):
            n_min = int(rng.integers(1, 6))
            kw["acceptance_decider_options"] = {
                "n_min": n_min,
                "n_max": n_min + int(rng.integers(0, 15)),
            }
    else:
        if chance(rng, 0.08):
            kw["n_evals_at_start"] = int(rng.integers(2, 5))
        if chance(rng, 0.05):
            kw["n_evals_per_point"] = int(rng.integers(2, 4))
    decider = None
    if prof["deciders"] is not None:
        decider = pick(rng, *prof["deciders"])
    elif chance(rng, 0.35):
        if noisy:
            decider = pick(rng, ["noisy", "naive_noisy", "classic"], [0.6, 0.2, 0.2])
        else:
            decider = pick(
                rng, ["classic", "classic_line_search", "naive_noisy"], [0.3, 0.6, 0.1]
            )
    parallel = chance(rng, prof["p_parallel"])
    if decider == "classic_line_search" and chance(rng, 0.8):
        parallel = True
    if parallel:
        cores = int(rng.integers(1, 7))
        kw["n_cores"] = cores
        if chance(rng, 0.5) or cores == 1:
            kw["batch_size"] = cores + int(rng.integers(0, 5))
    if decider is not None:
        kw["acceptance_decider"] = decider
    if chance(rng, 0.15):
        o = dict(kw.get("acceptance_decider_options", {}))
        o["min_improvement"] = float(pick(rng, [1e-6, 1e-3, 0.1]))
        kw["acceptance_decider_options"] = o
    if decider == "classic_line_search" and chance(rng, 0.3):
        o = dict(kw.get("acceptance_decider_options", {}))
        o["speculative_sampling_radius_factor"] = float(pick(rng, [0.3, 1.0, 1.5]))
        kw["acceptance_decider_options"] = o
    if chance(rng, prof["p_components"]):
        if chance(rng, 0.5):
            kw["sampler"] = pick(
                rng, ["optimal_hull", "random_hull", "random_interior"]
            )
            if kw["sampler"] == "optimal_hull" and chance(rng, 0.4):
                so = {}
                if chance(rng, 0.5):
                    so["criterion"] = pick(rng, ["distance", "determinant"])
                if chance(rng, 0.4):
                    so["n_points_randomsearch"] = int(rng.integers(2, 6))
                if chance(rng, 0.4):
                    so["algo_options"] = {"maxiter": int(rng.integers(1, 8))}
                kw["sampler_options"] = so
        if chance(rng, 0.4):
            kw["sample_filter"] = pick(
                rng, ["keep_all", "discard_all", "clustering", "drop_excess"]
            )
            if kw["sample_filter"] == "drop_excess" and chance(rng, 0.5):
                kw["sample_filter_options"] = {"n_max_factor": int(rng.integers(1, 4))}
        if chance(rng, 0.35):
            kw["model_fitter"] = pick(rng, ["ols", "ridge", "tranquilo"])
        if chance(rng, 0.4):
            kw["cube_subsolver"] = pick(
                rng, ["bntr", "bntr_fast", "fallback_cube", "fallback_multistart"],
                [0.35, 0.35, 0.2, 0.1],
            )
        if chance(rng, 0.4):
            kw["sphere_subsolver"] = pick(
                rng,
                ["gqtpar", "gqtpar_fast", "fallback_inscribed_cube",
                 "fallback_reparametrized", "fallback_norm_constraint"],
                [0.3, 0.3, 0.15, 0.15, 0.1],
            )
        if chance(rng, 0.25):
            kw["subsolver_options"] = {
                "conjugate_gradient_method": pick(
                    rng, ["cg", "steihaug_toint", "trsbox"]
                ),
                "maxiter": int(rng.integers(5, 30)),
            }
        if chance(rng, 0.25):
            kw["search_radius_factor"] = float(pick(rng, [1.0, 2.0, 4.25, 8.0]))
        if chance(rng, 0.25):
            kw["sample_size"] = int(dim + 1 + rng.integers(0, dim + 3))
        if chance(rng, 0.25):
            st = {}
            if chance(rng, 0.5):
                st["min_relative_step_keep"] = float(pick(rng, [0.0, 0.125, 0.3]))
            if chance(rng, 0.5):
                st["sample_increment"] = int(rng.integers(1, 3))
            if chance(rng, 0.5):
                st["max_trials"] = int(rng.integers(1, 4))
            if chance(rng, 0.3):
                st["drop"] = chance(rng, 0.5)
            if chance(rng, 0.3):
                st["min_relative_step"] = float(pick(rng, [0.01, 0.05, 0.3]))
            if st:
                kw["stagnation_options"] = st
        if chance(rng, 0.1):
            kw["residualize"] = chance(rng, 0.5)
    if chance(rng, prof["p_radius_options"]):
        ro = {}
        if chance(rng, 0.6):
            ro["initial_radius"] = float(
                np.round(mag * pick(rng, [0.02, 0.1, 0.5, 2.0]), 6)
            )
        if chance(rng, 0.4):
            ro["min_radius"] = float(pick(rng, [1e-8, 1e-4, 1e-2])) * mag
        if chance(rng, 0.4):
            ro["max_radius"] = float(np.round(mag * pick(rng, [0.6, 3.0, 1e4]), 6))
        if chance(rng, 0.3):
            ro["shrinking_factor"] = float(pick(rng, [0.25, 0.5, 0.8]))
        if chance(rng, 0.3):
            ro["expansion_factor"] = float(pick(rng, [1.5, 2.0, 4.0]))
        if chance(rng, 0.3):
            ro["rho_decrease"] = float(pick(rng, [0.05, 0.1, 0.25]))
        if chance(rng, 0.3):
            ro["rho_increase"] = float(pick(rng, [0.1, 0.3, 0.75]))
        if chance(rng, 0.2):
            ro["large_step"] = float(pick(rng, [0.1, 0.5, 0.9]))
        if chance(rng, 0.15):
            ro["max_radius_to_step_ratio"] = float(pick(rng, [1.5, 3.0, 10.0]))
        lo = ro.get("min_radius", 1e-6)
        hi = ro.get("max_radius", 1e6)
        r0 = ro.get("initial_radius", None)
        if r0 is not None:
            ro["initial_radius"] = float(min(max(r0, lo), hi))
        else:
            default = 0.1 * np.max(np.abs(spec["x0"]))
            if not lo <= default <= hi:
                ro["initial_radius"] = float(min(max(0.1 * mag, lo), hi))
        if ro:
            kw["radius_options"] = ro
    if chance(rng, prof["p_disable"]):
        kw["disable_convergence"] = True
    elif chance(rng, prof["p_tolerances"]):
        names = [
            "convergence_absolute_criterion_tolerance",
            "convergence_absolute_gradient_tolerance",
            "convergence_absolute_params_tolerance",
            "convergence_relative_criterion_tolerance",
            "convergence_relative_gradient_tolerance",
            "convergence_relative_params_tolerance",
        ]
        for name in names:
            if chance(rng, 0.4):
                kw[name] = float(pick(rng, [0.0, 1e-6, 1e-3, 0.05, 0.3]))
    if functype == "scalar" and kw["stopping_max_iterations"] > 18:
        kw["stopping_max_iterations"] = 18
    return kw


NOT_COUNTS = {"algo_options"}


def retype_options(rng, kw):
    """The same option values as a user may well write them: 1 for 1.0 and so on."""
    for k, v in kw.items():
        if isinstance(v, dict) and k not in NOT_COUNTS:
            retype_options(rng, v)
        elif isinstance(v, float) and v.is_integer() and abs(v) < 1e9:
            kw[k] = int(v)


def gen_pool(rng, kw, n_hint):
    p = {"pseed": int(rng.integers(1 << 30))}
    p["lat"] = pick(rng, ["zero", "unit", "exp", "heavy", "uniform"])
    p["order"] = pick(rng, ["fifo", "lifo", "random"])
    if chance(rng, 0.08):
        p["inner"] = "joblib"
        return p
    if chance(rng, 0.3):
        p["scribble"] = True
    if chance(rng, 0.25):
        p["out_type"] = "tuple"
    if chance(rng, 0.35):
        p["crash"] = [
            [int(rng.integers(0, 15)), int(rng.integers(0, 6)),
             int(rng.integers(1, 4)), bool(chance(rng, 0.5))]
            for _ in range(int(rng.integers(1, 8)))
        ]
    if chance(rng, 0.25):
        p["dup"] = [
            [int(rng.integers(0, 15)), int(rng.integers(0, 6))]
            for _ in range(int(rng.integers(1, 6)))
        ]
    if chance(rng, 0.25):
        p["stall"] = [
            [int(rng.integers(0, 15)), int(rng.integers(0, 6)),
             float(pick(rng, [10.0, 1000.0, 1e6]))]
            for _ in range(int(rng.integers(1, 4)))
        ]
    if chance(rng, 0.15):
        p["clock_jump"] = [
            [int(rng.integers(1, 15)), float(pick(rng, [-3600.0, 60.0, 1e7]))]
        ]
    return p


RAISES = ["ValueError", "ZeroDivisionError", "SimFailure", "RuntimeError",
          "FloatingPointError", "LinAlgError", "MemoryError", "OSError",
          "AssertionError", "TimeoutError"]


def gen_fault(rng, k, prof, noisy=False):
    kind = pick(rng, *prof["fault_kinds"])
    if kind == "vast" and noisy:
        kind = "pinf"
    if kind == "raise":
        return [k, "raise", pick(rng, RAISES)]
    if kind in ("nan1", "pinf1"):
        return [k, kind, int(rng.integers(0, 8))]
    return [k, kind]


def gen_faults(rng, prof, spec, kw, mag):
    n_start = 1
    noisy = bool(kw.get("noisy"))
    if kw.get("noisy") or kw.get("n_evals_at_start", 1) > 1:
        bs = kw.get("batch_size") or kw.get("n_cores", 1)
        n0 = kw.get("n_evals_at_start", 5 if kw.get("noisy") else 1)
        n_start = int(np.ceil(n0 / bs) * bs) if n0 > 1 else 1
    lo = 0 if chance(rng, prof["p_start_fault"]) else n_start
    horizon = kw["stopping_max_criterion_evaluations"] + 20
    faults = {}
    mode = rng.random()
    if mode < prof["p_burst"]:
        for _ in range(int(rng.integers(1, 4))):
            start = lo + int(rng.integers(0, max(1, min(horizon, 60))))
            length = int(rng.integers(1, 16))
            same = chance(rng, 0.5)
            f0 = gen_fault(rng, 0, prof, noisy)
            for k in range(start, start + length):
                if k >= lo:
                    faults[k] = [k] + f0[1:] if same else gen_fault(rng, k, prof, noisy)
    else:
        rate = pick(rng, [0.03, 0.1, 0.3, 0.6], [0.3, 0.4, 0.2, 0.1])
        for k in range(lo, min(horizon, lo + 160)):
            if rng.random() < rate:
                faults[k] = gen_fault(rng, k, prof, noisy)
    domain = []
    if chance(rng, prof["p_domain"]):
        for _ in range(int(rng.integers(1, 3))):
            f = random_domain_fault(rng, np.array(spec["x0"]), mag)
            g = gen_fault(rng, 0, prof, noisy)
            f["kind"] = g[1]
            f["args"] = g[2:]
            domain.append(f)
        if chance(rng, 0.5):
            faults = {}
    return [faults[k] for k in sorted(faults)], domain


def gen_opt(rng, prof):
    spec, mag = gen_problem(rng, prof)
    kw = gen_kwargs(rng, prof, spec, mag)
    sc = {"v": 1, "kind": "opt", "problem": spec, "kwargs": kw}
    if kw.get("noisy"):
        p0 = 1.0 if spec["functype"] == "scalar" else 0.3
        sc["noise"] = {
            "sd": float(pick(rng, [1e-3, 0.05, 0.3, 1.0])) * p0 * spec["scale"],
            "seed": int(rng.integers(1 << 30)),
        }
    elif kw.get("acceptance_decider") == "naive_noisy" and chance(rng, 0.5):
        sc["noise"] = {
            "sd": float(pick(rng, [1e-3, 0.05, 0.3])) * spec["scale"],
            "seed": int(rng.integers(1 << 30)),
        }
    sc["pool"] = gen_pool(rng, kw, 15)
    sc["faults"], sc["domain_faults"] = [], []
    if chance(rng, prof["p_faults"]):
        sc["faults"], sc["domain_faults"] = gen_faults(rng, prof, spec, kw, mag)
    if chance(rng, prof["p_subfail"]):
        calls = sorted({int(rng.integers(0, 25)) for _ in range(int(rng.integers(1, 8)))})
        if chance(rng, 0.15):
            calls = [-1]
        sc["subsolver_fail"] = {
            "calls": calls,
            "exc": pick(rng, ["ValueError", "ZeroDivisionError", "LinAlgError",
                              "RuntimeError", "SimFailure"]),
        }
    sc["probe"] = not chance(rng, prof["p_default_probe"])
    if spec["functype"] == "scalar":
        sc["ret"] = pick(rng, ["native", "npfloat", "zero_d", "one_d"],
                         [0.55, 0.2, 0.15, 0.1])
    else:
        sc["ret"] = pick(rng, ["native", "list", "tuple", "strided", "readonly"],
                         [0.55, 0.15, 0.1, 0.1, 0.1])
    if chance(rng, 0.2):
        sc["mutate_arg"] = True
    if chance(rng, 0.25):
        retype_options(rng, {k: v for k, v in kw.items() if isinstance(v, dict)})
    if chance(rng, 0.15):
        sc["namedtuples"] = ["radius_options", "stagnation_options",
                             "noise_adaptation_options"]
    return sc
