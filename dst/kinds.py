"""Executors of the scenario kinds. Each one runs the code and judges the property."""
import collections
import copy
import os
import pickle
import random
import subprocess
import sys
import threading

import numpy as np

from dst import oracles
from dst.env import CLOCK
from dst.pool import EXC, World
from dst.problems import Problem, aggregate
from dst.runner import (
    event_digest,
    execute,
    first_difference,
    result_items,
    run_digest,
)
from dst.sched import LineCounter, Scheduler
from dst.util import Digest, HarnessError, Violation, rng_for


class Outcome:
    def __init__(self):
        self.runs = 0
        self.evals = 0
        self.sim_time = 0.0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.digests = []
        self.schedule = []

    def add(self, run):
        self.runs += 1
        self.evals += len(run.world.delivered)
        self.sim_time += max(0.0, float(run.sim_time))
        self.fired.update(run.world.fired)
        self.digests.append(event_digest(run))

    def probe(self, d):
        for k, v in (d or {}).items():
            self.probes[k] += int(v)

    def digest(self):
        return Digest().add(self.digests, self.schedule).hex()


ORACLES = {
    "C01": [oracles.check_bounds],
    "C02": [oracles.check_monotone],
    "C03": [oracles.check_provenance],
    "C04": [oracles.check_failures],
    "C05": [oracles.check_ledger],
    "C08": [oracles.check_stopping],
    "C09": [oracles.check_convergence],
    "C11": [oracles.check_radius],
    "C12": [oracles.check_containment],
    "C13": [oracles.check_acceptance],
    "C14": [oracles.check_noise_sampling],
    "C15": [oracles.check_records],
    "C16": [oracles.check_batches],
    "C18": [oracles.check_noise_effort],
    "C19": [oracles.check_samples],
    "C20": [oracles.check_models],
    "C21": [oracles.check_steps],
}


def kind_opt(prop, sc, out):
    run = execute(sc)
    out.add(run)
    for oracle in ORACLES[prop]:
        out.probe(oracle(run))
    if run.exc is not None:
        out.probes["run_raised"] += 1


# --------------------------------------------------------------------------- C06
def _apply_variant(base, var):
    sc = copy.deepcopy(base)
    for key in ("pool", "ret", "mutate_arg", "use_global_rng", "probe"):
        if key in var:
            sc[key] = copy.deepcopy(var[key])
    if "n_cores" in var:
        sc["kwargs"]["n_cores"] = var["n_cores"]
    return sc


def kind_det(prop, sc, out):
    base_run = execute(sc["base"])
    out.add(base_run)
    if base_run.global_rng_changed:
        raise Violation("global-rng", "the run altered the global random state")
    keep = []
    for j, var in enumerate(sc["variants"]):
        if "global_seed" in var:
            np.random.seed(var["global_seed"])
            random.seed(var["global_seed"])
        if var.get("alloc"):
            keep.append([object() for _ in range(int(var["alloc"]))])
        run = execute(
            _apply_variant(sc["base"], var), clock_base=var.get("clock_base", 1e6)
        )
        out.add(run)
        if run.global_rng_changed:
            raise Violation("global-rng", "the run altered the global random state")
        diff = first_difference(base_run, run)
        if diff is None:
            a, b = base_run.world.delivered, run.world.delivered
            if len(a) != len(b):
                diff = f"{len(a)} vs {len(b)} evaluations"
            for d, e in zip(a, b):
                if d.x.tobytes() != e.x.tobytes():
                    diff = f"evaluation {d.k} at {d.x.tolist()} vs {e.x.tolist()}"
                    break
        if diff is not None:
            raise Violation(
                "not-reproducible",
                f"variant {j} ({', '.join(sorted(var))}) differs from the base run: "
                f"{diff}",
            )
        out.probes["variant"] += 1
        for key in var:
            out.probes["variant_" + key] += 1


def kind_fresh(prop, sc, out):
    """The same scenarios in a fresh interpreter with another hash seed."""
    mine = []
    for s in sc["scs"]:
        run = execute(s)
        out.add(run)
        mine.append(event_digest(run))
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(sc["hashseed"])
    env["DST_FRESH"] = "1"
    p = subprocess.run(
        [sys.executable, "-m", "dst.fresh"],
        input=pickle.dumps(sc["scs"]),
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        env=env,
        cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
        timeout=600,
    )
    if p.returncode != 0:
        raise HarnessError("fresh interpreter failed: " + p.stderr.decode()[-500:])
    theirs = pickle.loads(p.stdout[p.stdout.index(b"DSTFRESH") + 8:])
    for j, (a, b) in enumerate(zip(mine, theirs)):
        out.probes["fresh"] += 1
        if a != b:
            raise Violation(
                "not-reproducible",
                f"run {j} differs in a fresh interpreter with hash seed "
                f"{sc['hashseed']}",
            )


# --------------------------------------------------------------------------- C07
def isolated(func):
    """Run func in a forked child and return its (pickled) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = pickle.dumps(("ok", func()))
        except BaseException as e:  # noqa: BLE001
            data = pickle.dumps(("error", f"{type(e).__name__}: {e}"))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("isolated child died")
    status, val = pickle.loads(data)
    if status != "ok":
        raise HarnessError("isolated child failed: " + val)
    return val


def item_digests(run):
    if run.result is None:
        return [("exception", f"{run.exc_type}: {run.exc}")]
    return [(n, Digest().add(v).hex()) for n, v in result_items(run.result)]


def _compare(ref, got, what):
    for (na, da), (nb, db) in zip(ref, got):
        if na != nb or da != db:
            raise Violation(
                "not-isolated",
                f"{what}: {na} differs from the same optimization run alone"
                + (f" ({da} vs {db})" if na == "exception" or nb == "exception" else ""),
            )
    if len(ref) != len(got):
        raise Violation("not-isolated", f"{what}: length of the result differs")


def _check_inputs(run, what):
    if run.inputs_changed:
        raise Violation("input-modified", f"{what}: {run.inputs_changed} was modified")


def _scramble_result(run):
    """What a caller may do with a result it owns."""
    res = run.result
    if res is None:
        return
    hist = res["tranquilo_history"]
    for name in ("xs", "fvecs", "fvals"):
        arr = getattr(hist, name, None)
        if isinstance(arr, np.ndarray) and arr.flags.writeable:
            arr[...] = 1.23e45
    for s in res["states"]:
        for val in list(s):
            if isinstance(val, np.ndarray) and val.flags.writeable and val.ndim:
                val[...] = 7
        for m in (s.model, s.vector_model):
            for val in vars(m).values():
                if isinstance(val, np.ndarray) and val.flags.writeable and val.ndim:
                    val[...] = 7


def kind_iso(prop, sc, out):
    mode = sc["mode"]
    scs = sc["scs"]
    refs = [isolated(lambda s=s: item_digests(execute(s))) for s in scs]
    out.runs += len(scs)

    def done(j, run, what):
        out.add(run)
        _check_inputs(run, what)
        _compare(refs[j], item_digests(run), what)
        out.probes["compared"] += 1

    if mode == "after":
        # all runs one after the other in one process; each must match its reference
        for j, s in enumerate(scs):
            done(j, execute(s), f"run {j} of {len(scs)} in one process")
    elif mode == "reuse":
        s = scs[0]
        x0 = Problem(s["problem"]).x0
        for j in range(2):
            run = execute(s, x0=x0.copy())
            done(0, run, f"repetition {j}")
            _scramble_result(run)
    elif mode == "shared":
        first = Problem(scs[0]["problem"])
        shared = copy.deepcopy(scs[0]["kwargs"])
        x0 = first.x0
        bounds = (first.lb, first.ub)
        order = sc.get("order", list(range(len(scs))))
        for j in order:
            run = execute(scs[j], shared_kwargs=shared, x0=x0, bounds=bounds)
            done(j, run, f"run {j} with option objects shared with other runs")
    elif mode == "nested":
        inner_runs = []
        at = {int(a) for a in sc["at"]}

        def hook(world, run):
            def on_call(k, x):
                if k in at and world.ctx is not None:
                    at.discard(k)
                    inner_runs.append(execute(scs[1], manage_clock=False))

            world.on_call = on_call

        run = execute(scs[0], world_hook=hook)
        run.sim_time = min(run.sim_time, 1e12)
        done(0, run, "optimization whose objective runs another optimization")
        for r in inner_runs:
            done(1, r, "optimization inside an objective")
        out.probes["nested"] += len(inner_runs)
    elif mode == "threads":
        CLOCK.start()
        shared = None
        kw = {}
        if sc.get("share"):
            first = Problem(scs[0]["problem"])
            shared = copy.deepcopy(scs[0]["kwargs"])
            kw = {"x0": first.x0, "bounds": (first.lb, first.ub)}
        sch = Scheduler(
            [
                (lambda s=s: execute(s, manage_clock=False, shared_kwargs=shared, **kw))
                for s in scs
            ],
            sc["switches"],
            subsolvers=bool(sc.get("trace_subsolvers", False)),
        )
        try:
            runs = sch.run()
        finally:
            CLOCK.stop()
        out.schedule.append(Digest().add([list(e) for e in sch.log]).hex())
        out.probes["switches"] += sch.n_switches
        for j, run in enumerate(runs):
            done(j, run, f"thread {j} of {len(runs)}")
    else:
        raise HarnessError(f"unknown mode {mode}")
    out.probes["mode_" + mode] += 1


# --------------------------------------------------------------------------- C17
def kind_int(prop, sc, out):
    how = sc["how"]
    base = sc["base"]
    if how == "line":
        counter = LineCounter(subsolvers=True)
        probe = execute(base, around=counter.run)
        out.add(probe)
        total = counter.n
        if probe.exc is not None:
            out.probes["base_raised"] += 1
        at = 1 + int(sc["frac"] * max(0, total - 1))
        worlds = []

        def hook(world, run):
            worlds.append(world)

        def on_fire():
            for w in worlds:
                w.dead = True
                w.fire("async_interrupt")

        line = LineCounter(
            at=at,
            make_exc=lambda: EXC[sc["exc"]]("asynchronous"),
            subsolvers=True,
            on_fire=on_fire,
        )
        run = execute(base, world_hook=hook, around=line.run)
        out.add(run)
        injected = line.exc
        where = f"line event {at} of {total} in {line.fired_at}"
        if injected is None:
            out.probes["not_fired"] += 1
            return
        out.schedule.append(list(line.fired_at))
    else:
        run = execute(base)
        out.add(run)
        injected = run.world.injected
        where = how
        if injected is None or not run.world.dead:
            out.probes["not_fired"] += 1
            return
    out.probes["fired_" + how] += 1
    if run.exc is None:
        raise Violation(
            "interrupt-swallowed",
            f"{type(injected).__name__} ({where}) was turned into a result "
            f"({run.result['message']!r})",
        )
    if type(run.exc) is not type(injected) or str(run.exc) != str(injected):
        raise Violation(
            "interrupt-changed",
            f"{type(injected).__name__} ({where}) reached the caller as "
            f"{run.exc_type}: {run.exc}",
        )
    if run.world.calls_after_death:
        raise Violation(
            "evaluated-after-interrupt",
            f"{run.world.calls_after_death} objective calls after {where}",
        )
    late = [e for e in run.world.protocol_errors if "after an interrupt" in e]
    if late:
        raise Violation("batch-after-interrupt", f"{late[0]} ({where})")


# --------------------------------------------------------------------------- C10
class GoalReached(KeyboardInterrupt):
    """Ends a simulated run once its incumbent is good enough."""


def kind_conv(prop, sc, out):
    spec = sc["expect"]
    p = Problem(sc["base"]["problem"])
    f0 = p.fval(p.x0)
    fopt = float(spec["fopt"])
    scale = max(f0 - fopt, 1e-300)

    def hook(world, run):
        def on_iteration(state):
            if (p.fval(state.x) - fopt) / scale <= float(spec["tol"]):
                raise GoalReached()

        world.on_iteration = on_iteration

    run = execute(sc["base"], world_hook=hook)
    out.add(run)
    out.probes["bounded"] += int(p.lb is not None or p.ub is not None)
    out.probes["faulty"] += int(bool(run.world.fired))
    if isinstance(run.exc, GoalReached):
        out.probes["goal"] += 1
        out.gap = len(run.world.delivered) / sc["base"]["kwargs"][
            "stopping_max_criterion_evaluations"]
        return
    if run.exc is not None:
        raise Violation(
            "no-recovery", f"{run.exc_type}: {run.exc}\n{oracles._tb_tail(run)}"
        )
    fs = p.fval(run.result["solution_x"])
    gap = (fs - fopt) / scale
    out.probes["goal_at_end"] += 1
    if not gap <= float(spec["tol"]):
        v = Violation(
            "no-recovery",
            f"criterion {fs!r} after {len(run.world.delivered)} evaluations "
            f"({len(sc['base']['faults'])} failed transiently), optimum {fopt!r}, start "
            f"{f0!r}: {run.result['message']!r}",
        )
        v.gap = gap
        raise v


def kind_convgroup(prop, sc, out):
    missed, stuck = [], []
    for j, one in enumerate(sc["group"]):
        try:
            kind_conv(prop, one, out)
        except Violation as v:
            gap = getattr(v, "gap", None)
            if gap is None:
                raise
            missed.append(f"run {j}: {v.message}")
            if not gap <= STUCK:
                stuck.append(f"run {j}: {v.message}")
    out.probes["group_missed"] += len(missed)
    for which, found, most in (
        ("come near the optimum", missed, sc["most"]),
        ("make real progress", stuck, sc["stuck"]),
    ):
        if len(found) > int(most):
            raise Violation(
                "no-recovery-share",
                f"{len(found)} of {len(sc['group'])} runs with a few failed evaluations "
                f"did not {which} (at most {most} may); {found[0]}",
            )


STUCK = 0.9


# --------------------------------------------------------------------------- C05
class RefRecord:
    """Executable reference model of the evaluation record."""

    def __init__(self, functype):
        self.functype = functype
        self.xs = []
        self.evals = []

    def add_xs(self, xs):
        out = list(range(len(self.xs), len(self.xs) + len(xs)))
        for x in xs:
            self.xs.append(np.array(x, dtype=float))
            self.evals.append([])
        return out

    def n_fun(self):
        return sum(len(e) for e in self.evals)


def _cmp_record(hist, ref, rng, out):
    n = len(ref.xs)
    if hist.get_n_xs() != n or hist.get_n_fun() != ref.n_fun():
        raise Violation(
            "count",
            f"record has {hist.get_n_xs()} points and {hist.get_n_fun()} evaluations, "
            f"expected {n} and {ref.n_fun()}",
        )
    if n == 0:
        return
    if ref.n_fun() == 0:
        return
    which = rng.permutation(n)[: int(rng.integers(1, n + 1))]
    if rng.random() < 0.3:
        which = np.arange(n)
    form = int(rng.integers(0, 3))
    idx = which if form == 0 else [int(i) for i in which]
    if form == 2:
        idx = which.astype(float)
    xs = np.asarray(hist.get_xs(idx))
    fvecs = hist.get_fvecs(idx)
    fvals = hist.get_fvals(idx)
    n_ev = hist.get_n_evals(idx)
    for row, i in zip(xs, which):
        i = int(i)
        if not np.array_equal(row, ref.xs[i]):
            raise Violation("points", f"point {i}: {row} vs {ref.xs[i]}")
        want = ref.evals[i]
        if len(fvecs[i]) != len(want) or len(fvals[i]) != len(want) or n_ev[i] != len(
            want
        ):
            raise Violation("multiplicity", f"point {i}: {len(fvecs[i])} vs {len(want)}")
        for a, f, b in zip(fvecs[i], fvals[i], want):
            if not np.array_equal(np.asarray(a, dtype=float).reshape(-1), b):
                raise Violation("values", f"point {i}: {a} vs {b}")
            if not oracles.close(f, aggregate(ref.functype, b), rtol=1e-10, atol=1e-300):
                raise Violation("aggregate", f"point {i}")
    with_evals = [int(i) for i in which if ref.evals[int(i)]]
    if with_evals:
        mx, mf = hist.get_model_data(np.array(with_evals), average=True)
        for row, f, i in zip(mx, mf, with_evals):
            with np.errstate(all="ignore"):
                want = np.mean(ref.evals[i], axis=0)
            if not np.array_equal(row, ref.xs[i]) or not np.allclose(
                np.asarray(f, dtype=float).reshape(-1), want, rtol=1e-12, atol=0,
                equal_nan=True,
            ):
                raise Violation("model-data", f"averaged data of point {i}")
    i = int(which[0])
    if not np.array_equal(np.asarray(hist.get_xs(i)), ref.xs[i]):
        raise Violation("points", f"scalar access to point {i}")
    if len(hist.get_fvals(i)) != len(ref.evals[i]):
        raise Violation("multiplicity", f"scalar access to point {i}")

    class Reg:
        center = ref.xs[i] + rng.normal(size=len(ref.xs[i])) * 0.3
        radius = float(rng.uniform(0.1, 3.0))

    got = {int(j) for j in hist.get_x_indices_in_region(Reg)}
    dist = np.sqrt(((np.array(ref.xs) - Reg.center) ** 2).sum(axis=1))
    inside = {int(j) for j in np.nonzero(dist <= Reg.radius * (1 - 1e-12))[0]}
    maybe = {int(j) for j in np.nonzero(dist <= Reg.radius * (1 + 1e-12))[0]}
    if not inside <= got <= maybe:
        raise Violation("region-query", f"{sorted(got ^ inside)[:5]} wrongly in/excluded")
    out.probes["compare"] += 1


def kind_hist(prop, sc, out):
    from tranquilo.history import History
    from tranquilo.wrap_criterion import get_wrapped_criterion

    problem = Problem(sc["problem"])
    world = World(sc, problem)
    hist = History(functype=problem.functype)
    ref = RefRecord(problem.functype)
    evaluate = get_wrapped_criterion(
        criterion=world.criterion,
        batch_evaluator=world.evaluator,
        n_cores=int(sc.get("n_cores", 2)),
        history=hist,
    )
    CLOCK.start()
    t0 = CLOCK.now
    try:
        for j, op in enumerate(sc["ops"]):
            rng = rng_for("histop", sc["opseed"], j)
            name = op[0]
            if name == "xs":
                n, form = int(op[1]), op[2]
                xs = np.round(
                    problem.x0 + rng.normal(size=(n, problem.dim)), int(op[3])
                )
                if form == "one":
                    got = hist.add_xs(xs[0].copy())
                    want = ref.add_xs(xs[:1])
                    if int(got) != want[0]:
                        raise Violation("index", f"add_xs returned {got}, not {want[0]}")
                    continue
                arg = [x.copy() for x in xs] if form == "list" else xs.copy()
                got = [int(i) for i in hist.add_xs(arg)]
                want = ref.add_xs(xs)
                if got != want:
                    raise Violation("index", f"add_xs returned {got}, not {want}")
                if form == "array":
                    arg[...] = -9.9e9
                out.probes["add_xs"] += n
            elif name == "eval":
                n_xs = len(ref.xs)
                if n_xs == 0:
                    continue
                k = min(n_xs, int(op[1]))
                idx = [int(i) for i in rng.permutation(n_xs)[:k]]
                if op[3] == "recent":
                    idx = list(range(n_xs - k, n_xs))
                reps = [int(rng.integers(1, int(op[2]) + 1)) for _ in idx]
                key = (lambda i: np.int64(i)) if rng.random() < 0.5 else int
                info = {key(i): r for i, r in zip(idx, reps)}
                before = len(world.delivered)
                aborted = False
                try:
                    evaluate(info)
                except (Exception, KeyboardInterrupt, SystemExit) as e:
                    if e is not world.injected:
                        raise Violation(
                            "batch-raised", f"{type(e).__name__}: {e}"
                        ) from e
                    aborted = True
                    world.dead = False
                    out.probes["aborted_batch"] += 1
                new = world.delivered[before:]
                if aborted and new:
                    raise HarnessError("aborted batch delivered results")
                if not aborted:
                    want = [i for i, r in zip(idx, reps) for _ in range(r)]
                    if len(new) != len(want):
                        raise Violation(
                            "tasks", f"{len(new)} tasks submitted, {len(want)} requested"
                        )
                    left = collections.Counter(want)
                    for d in new:
                        hit = [
                            i for i in left
                            if left[i] > 0 and np.array_equal(ref.xs[i], d.x)
                        ]
                        if not hit:
                            raise Violation(
                                "tasks", f"evaluated {d.x.tolist()}, not requested"
                            )
                        left[hit[0]] -= 1
                        ref.evals[hit[0]].append(
                            oracles.expected_fvec(d, problem.n_resid)
                        )
                out.probes["evaluations"] += len(new)
            elif name == "cmp":
                _cmp_record(hist, ref, rng, out)
        _cmp_record(hist, ref, rng_for("histop", sc["opseed"], "last"), out)
    finally:
        out.sim_time += CLOCK.now - t0
        CLOCK.stop()
    if len(ref.xs) > 1000:
        out.probes["grown_xs"] += 1
    if ref.n_fun() > 1000:
        out.probes["grown_evals"] += 1
    out.runs += 1
    out.evals += len(world.delivered)
    out.fired.update(world.fired)
    d = Digest()
    for e in ref.evals:
        d.add([list(map(float, v)) for v in e])
    out.digests.append(d.add([list(e) for e in world.events]).hex())


KINDS = {
    "opt": kind_opt,
    "det": kind_det,
    "fresh": kind_fresh,
    "iso": kind_iso,
    "int": kind_int,
    "conv": kind_conv,
    "convgroup": kind_convgroup,
    "hist": kind_hist,
}


def decide(prop, sc):
    """Run one scenario; returns its Outcome or raises Violation."""
    out = Outcome()
    try:
        KINDS[sc["kind"]](prop, sc, out)
    except Violation as v:
        v.outcome = out
        raise
    return out


__all__ = ["decide", "Outcome", "run_digest", "threading"]
