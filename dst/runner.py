"""Executes one scenario: a pure function of the scenario and of the code under test."""
import collections
import copy
import functools
import random
import traceback

import numpy as np

from dst import components
from dst.env import CLOCK
from dst.pool import EXC, World
from dst.problems import Problem
from dst.util import Digest


class Run:
    def __init__(self):
        self.result = None
        self.exc = None
        self.exc_type = None
        self.exc_tb = None
        self.world = None
        self.problem = None
        self.sc = None
        self.inputs_changed = []
        self.global_rng_changed = False
        self.sim_time = 0.0
        self.sub_calls = 0
        self.sub_fired = 0


USER_COMPONENTS = {
    "sampler": components.user_sampler,
    "model_fitter": components.user_fitter,
    "sample_filter": components.user_filter,
    "cube_subsolver": components.user_cube_solver,
    "sphere_subsolver": components.user_sphere_solver,
}
OPTIONS_OF = {
    "sampler": "sampler_options",
    "model_fitter": "model_fitter_options",
    "sample_filter": "sample_filter_options",
}


def _default_filter_name(kwargs):
    name = kwargs.get("sample_filter")
    if name is not None:
        return name
    bs = kwargs.get("batch_size")
    if bs is None:
        bs = kwargs.get("n_cores", 1)
    return "drop_excess" if int(bs) > 1 else "keep_all"


def make_probe(world, kwargs):
    from tranquilo.filter_points import get_sample_filter

    inner = get_sample_filter(
        sample_filter=_default_filter_name(kwargs),
        user_options=kwargs.get("sample_filter_options"),
    )

    def probed_sample_filter(
        xs, indices, state, target_size, history, n_evals_per_point
    ):
        world.iteration_start(state, n_evals_per_point, history.get_n_xs(), indices,
                              target_size)
        return inner(
            xs=xs, indices=indices, state=state, target_size=target_size
        )

    return probed_sample_filter


def _sub_functions():
    from tranquilo.subsolvers.bntr import bntr
    from tranquilo.subsolvers.bntr_fast import bntr_fast
    from tranquilo.subsolvers.fallback_subsolvers import (
        robust_cube_solver,
        robust_cube_solver_multistart,
        robust_sphere_solver_inscribed_cube,
        robust_sphere_solver_norm_constraint,
        robust_sphere_solver_reparametrized,
    )
    from tranquilo.subsolvers.gqtpar import gqtpar
    from tranquilo.subsolvers.gqtpar_fast import gqtpar_fast

    return {
        "gqtpar": gqtpar,
        "gqtpar_fast": gqtpar_fast,
        "fallback_reparametrized": robust_sphere_solver_reparametrized,
        "fallback_inscribed_cube": robust_sphere_solver_inscribed_cube,
        "fallback_norm_constraint": robust_sphere_solver_norm_constraint,
        "bntr": bntr,
        "bntr_fast": bntr_fast,
        "fallback_cube": robust_cube_solver,
        "fallback_multistart": robust_cube_solver_multistart,
    }


def _flaky(func, run, world, calls, exc):
    calls = set(calls)

    @functools.wraps(func)
    def wrapper(*args, **kwargs):
        n = run.sub_calls
        run.sub_calls += 1
        if n in calls or -1 in calls:
            run.sub_fired += 1
            world.evals_at_subfail = len(world.delivered)
            world.fire("subsolver_failure")
            world.injected = EXC[exc](f"injected subsolver failure at call {n}")
            if not isinstance(world.injected, Exception):
                world.dead = True
            raise world.injected
        return func(*args, **kwargs)

    return wrapper


def _failing_component(func, world, at, exc):
    count = [0]

    @functools.wraps(func)
    def wrapper(*args, **kwargs):
        n = count[0]
        count[0] += 1
        if n == at:
            world.fire("component_failure")
            world.dead = True
            world.injected = EXC[exc](f"injected component failure at call {n}")
            raise world.injected
        return func(*args, **kwargs)

    return wrapper


def build_kwargs(sc, run, world, shared=None):
    kwargs = copy.deepcopy(sc["kwargs"]) if shared is None else dict(shared)
    ev = sc.get("evaluator", "sim")
    if ev == "sim":
        kwargs["batch_evaluator"] = world.evaluator
    elif ev is not None:
        kwargs["batch_evaluator"] = ev
    if sc.get("probe", True):
        kwargs["sample_filter"] = make_probe(world, kwargs)
        kwargs.pop("sample_filter_options", None)
    for name in sc.get("namedtuples", []):
        if isinstance(kwargs.get(name), dict):
            kwargs[name] = collections.namedtuple("Bundle", kwargs[name])(**kwargs[name])
    sf = sc.get("subsolver_fail")
    if sf:
        table = _sub_functions()
        for key, default in (
            ("sphere_subsolver", "gqtpar_fast"),
            ("cube_subsolver", "bntr_fast"),
        ):
            func = table[kwargs.get(key, default)]
            kwargs[key] = _flaky(func, run, world, sf["calls"], sf["exc"])
    uc = sc.get("user_components") or []
    cf = sc.get("component_fail")
    names = list(uc) + ([cf["component"]] if cf and cf["component"] not in uc else [])
    for which in names:
        if which == "sample_filter" and callable(kwargs.get("sample_filter")):
            base = kwargs["sample_filter"]
        else:
            base = USER_COMPONENTS[which]
            kwargs.pop(OPTIONS_OF.get(which, ""), None)
        if cf and cf["component"] == which:
            base = _failing_component(base, world, int(cf["at"]), cf["exc"])
        kwargs[which] = base
    return kwargs


def _snapshot(obj):
    if isinstance(obj, np.ndarray):
        return ("nd", obj.copy())
    if isinstance(obj, dict):
        return ("d", {k: _snapshot(v) for k, v in obj.items()})
    if isinstance(obj, (list, tuple)):
        return ("l", [_snapshot(v) for v in obj])
    if callable(obj):
        return ("c", id(obj))
    return ("v", obj)


def _same(snap, obj):
    kind, val = snap
    if kind == "nd":
        return isinstance(obj, np.ndarray) and np.array_equal(val, obj, equal_nan=True)
    if kind == "d":
        return (
            isinstance(obj, dict)
            and set(obj) == set(val)
            and all(_same(val[k], obj[k]) for k in val)
        )
    if kind == "l":
        return len(obj) == len(val) and all(_same(a, b) for a, b in zip(val, obj))
    if kind == "c":
        return id(obj) == val
    return val is obj or (type(val) is type(obj) and val == obj)


def global_rng_digest():
    st = np.random.get_state(legacy=True)
    return (
        Digest()
        .add(str(st[0]), np.array(st[1], dtype=float), int(st[2]), int(st[3]), float(st[4]))
        .add(repr(hash(random.getstate())))
        .hex()
    )


def execute(sc, *, world_hook=None, shared_kwargs=None, clock_base=1_000_000.0,
            manage_clock=True, x0=None, bounds=None, around=None):
    from tranquilo.tranquilo import _tranquilo

    run = Run()
    run.sc = sc
    problem = Problem(sc["problem"])
    world = World(sc, problem)
    run.world = world
    run.problem = problem
    if world_hook is not None:
        world_hook(world, run)
    kwargs = build_kwargs(sc, run, world, shared_kwargs)
    x = problem.x0.copy() if x0 is None else x0
    if bounds is None:
        lb = None if problem.lb is None else problem.lb.copy()
        ub = None if problem.ub is None else problem.ub.copy()
    else:
        lb, ub = bounds
    passed = {"x": x, "lower_bounds": lb, "upper_bounds": ub}
    passed.update(kwargs)
    snap = {k: _snapshot(v) for k, v in passed.items()}
    if manage_clock:
        CLOCK.start(clock_base)
    t0 = CLOCK.now
    world.t_start = t0
    rng0 = global_rng_digest()
    try:
        def call():
            return _tranquilo(
                functype=problem.functype,
                criterion=_as_function(world),
                x=x,
                lower_bounds=lb,
                upper_bounds=ub,
                **kwargs,
            )

        run.result = call() if around is None else around(call)
    except BaseException as e:  # noqa: BLE001
        if getattr(e, "_dst_control", False):
            raise
        run.exc = e
        run.exc_type = type(e).__name__
        run.exc_tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    run.sim_time = CLOCK.now - t0
    if manage_clock:
        CLOCK.stop()
    run.global_rng_changed = (
        global_rng_digest() != rng0 and not sc.get("use_global_rng", False)
    )
    run.inputs_changed = [k for k in passed if not _same(snap[k], passed[k])]
    return run


def _as_function(world):
    def criterion(x):
        return world.criterion(x)

    return criterion


# ---------------------------------------------------------------------- digests
def result_items(res):
    """Ordered (name, value) pairs of everything a caller can observe of a result."""
    hist = res["tranquilo_history"]
    yield "message", res["message"]
    yield "solution_x", np.asarray(res["solution_x"])
    yield "solution_criterion", float(res["solution_criterion"])
    n_xs = hist.get_n_xs()
    yield "n_xs", n_xs
    yield "n_fun", hist.get_n_fun()
    yield "history_xs", np.array(hist.get_xs())
    for i, fv in hist.get_fvecs(np.arange(n_xs)).items():
        yield f"history_fvecs[{i}]", np.array(fv)
    for i, fv in hist.get_fvals(np.arange(n_xs)).items():
        yield f"history_fvals[{i}]", np.array(fv)
    yield "n_states", len(res["states"])
    for k, s in enumerate(res["states"]):
        yield f"state[{k}].radius", float(s.trustregion.radius)
        yield f"state[{k}].center", np.asarray(s.trustregion.center)
        yield f"state[{k}].x", np.asarray(s.x)
        yield f"state[{k}].index", int(s.index)
        yield f"state[{k}].fval", float(s.fval)
        yield f"state[{k}].rho", float(s.rho)
        yield f"state[{k}].accepted", bool(s.accepted)
        yield f"state[{k}].candidate_index", int(s.candidate_index)
        yield f"state[{k}].candidate_x", np.asarray(s.candidate_x)
        for f in ("model_indices", "new_indices", "old_indices_used",
                  "old_indices_discarded"):
            yield f"state[{k}].{f}", np.asarray(getattr(s, f), dtype=float)
        for f in ("step_length", "relative_step_length", "n_evals_per_point",
                  "n_evals_acceptance"):
            v = getattr(s, f)
            yield f"state[{k}].{f}", None if v is None else float(v)
        m = s.model
        yield f"state[{k}].model.intercept", float(np.asarray(m.intercept))
        yield f"state[{k}].model.linear_terms", np.asarray(m.linear_terms)
        if m.square_terms is not None:
            yield f"state[{k}].model.square_terms", np.asarray(m.square_terms)


def run_digest(run):
    d = Digest()
    if run.result is not None:
        for name, v in result_items(run.result):
            d.add(name, v)
    else:
        d.add("EXC", run.exc_type, str(run.exc))
    return d.hex()


def first_difference(a, b):
    if (a.result is None) != (b.result is None):
        return f"outcome {a.exc_type or 'result'} vs {b.exc_type or 'result'}"
    if a.result is None:
        if (a.exc_type, str(a.exc)) != (b.exc_type, str(b.exc)):
            return f"exception {a.exc!r} vs {b.exc!r}"
        return None
    for (na, va), (nb, vb) in zip(result_items(a.result), result_items(b.result)):
        if na != nb:
            return f"entry {na} vs {nb}"
        if Digest().add(va).hex() != Digest().add(vb).hex():
            return f"{na}: {va!r} vs {vb!r}"
    return None


def event_digest(run):
    d = Digest()
    for c in run.world.calls:
        d.add(c[0], c[1], c[2])
    for e in run.world.events:
        d.add(list(e))
    d.add(run_digest(run))
    return d.hex()
