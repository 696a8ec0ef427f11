"""Simulated objective and simulated batch evaluator (discrete-event worker pool)."""
import heapq
import traceback

import numpy as np

from dst.env import CLOCK
from dst.problems import in_domain_fault
from dst.util import rng_for


class SimFailure(Exception):
    """Raised by the simulated objective."""


class PoolBroken(Exception):
    """Raised by the simulated batch evaluator itself."""


class PoolExit(BaseException):
    """A BaseException that is not KeyboardInterrupt/SystemExit."""


EXC = {
    "ValueError": ValueError,
    "ZeroDivisionError": ZeroDivisionError,
    "FloatingPointError": FloatingPointError,
    "ArithmeticError": ArithmeticError,
    "RuntimeError": RuntimeError,
    "SimFailure": SimFailure,
    "MemoryError": MemoryError,
    "LinAlgError": np.linalg.LinAlgError,
    "OSError": OSError,
    "TimeoutError": TimeoutError,
    "AssertionError": AssertionError,
    "StopIteration": StopIteration,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "PoolBroken": PoolBroken,
}


class Delivered:
    """One logical evaluation: what the evaluator handed back to the optimizer."""

    __slots__ = ("k", "batch", "i", "it", "x", "raw", "failed", "fault")

    def __init__(self, k, batch, i, it, x, raw, failed, fault):
        self.k = k
        self.batch = batch
        self.i = i
        self.it = it
        self.x = x
        self.raw = raw
        self.failed = failed
        self.fault = fault


class World:
    """Everything outside the optimizer: objective, workers, faults, ledger."""

    def __init__(self, scenario, problem):
        self.sc = scenario
        self.problem = problem
        self.functype = problem.functype
        self.noise_sd = float((scenario.get("noise") or {}).get("sd", 0.0))
        self.noise_seed = int((scenario.get("noise") or {}).get("seed", 0))
        self.noise_sd2 = float((scenario.get("noise") or {}).get("rel", 0.0))
        self.ret = scenario.get("ret", "native")
        self.mutate_arg = bool(scenario.get("mutate_arg", False))
        self.use_global_rng = bool(scenario.get("use_global_rng", False))
        self.faults = {int(f[0]): f for f in scenario.get("faults", [])}
        self.domain_faults = scenario.get("domain_faults", [])
        self.burn = scenario.get("burn", None)

        self.delivered = []  # ledger of Delivered
        self.calls = []  # every physical call of the objective: (k, t, x)
        self.batches = []
        self.iters = []  # iteration starts seen by the probe
        self.ctx = None
        self.seq_counter = 0
        self.in_batch = False
        self.fired = {}
        self.events = []  # simulated event log (for digests / determinism)
        self.calls_after_death = 0
        self.dead = False
        self.on_call = None
        self.on_iteration = None
        self.on_batch = None
        self.nested = None
        self.injected = None
        self.prev_args = None
        self.prev_out = None
        self.protocol_errors = []
        self.t_start = 0.0
        self.evals_at_subfail = 0

        p = scenario.get("pool", {})
        self.pool = p
        self.pseed = p.get("pseed", 0)
        self.lat = p.get("lat", "zero")
        self.order = p.get("order", "fifo")
        self.scribble = bool(p.get("scribble", False))
        self.out_type = p.get("out_type", "list")
        self.inner = p.get("inner", "sim")
        self.crash = {(int(c[0]), int(c[1])): c for c in p.get("crash", [])}
        self.dup = {(int(c[0]), int(c[1])) for c in p.get("dup", [])}
        self.stall = {(int(c[0]), int(c[1])): float(c[2]) for c in p.get("stall", [])}
        self.abort = {int(c[0]): c for c in p.get("abort", [])}
        self.jumps = {int(c[0]): float(c[1]) for c in p.get("clock_jump", [])}

    # ------------------------------------------------------------------ objective
    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def noise(self, k):
        n = self.problem.n_resid
        if self.noise_sd == 0.0:
            return np.zeros(n)
        return self.noise_sd * rng_for("noise", self.noise_seed, k).standard_normal(n)

    def criterion(self, x):
        if self.dead:
            self.calls_after_death += 1
        if self.ctx is None:
            k = self.seq_counter
            self.seq_counter += 1
        else:
            k = self.ctx
        xc = np.array(x, dtype=float, copy=True)
        self.calls.append((k, CLOCK.now if CLOCK.active else 0.0, xc))
        if self.on_call is not None:
            self.on_call(k, xc)
        if self.use_global_rng:
            np.random.random(3)
        fault = self.faults.get(k)
        kind = fault[1] if fault else None
        if kind is None:
            for df in self.domain_faults:
                if in_domain_fault(df, xc):
                    kind = df["kind"]
                    fault = [k, kind] + list(df.get("args", []))
                    self.fire("domain")
                    break
        out = self._value(xc, k, kind, fault)
        if self.mutate_arg:
            try:
                x[...] = -7.77e7
                self.fire("mutate_arg")
            except (TypeError, ValueError):
                pass
        return out

    def _value(self, x, k, kind, fault):
        if kind == "raise":
            self.fire("raise")
            name = fault[2] if len(fault) > 2 else "SimFailure"
            raise EXC[name](f"injected failure at evaluation {k}")
        if kind == "exit":
            self.fire("exit:" + fault[2])
            self.injected = EXC[fault[2]](f"injected at evaluation {k}")
            self.dead = True
            raise self.injected
        v = self.problem.value(x)
        scalar = self.functype == "scalar"
        arr = np.atleast_1d(np.array(v, dtype=float))
        if self.noise_sd:
            arr = arr + self.noise(k)
        if kind is not None:
            self.fire(kind)
            if kind == "nan":
                arr[:] = np.nan
            elif kind == "pinf":
                arr[:] = np.inf
            elif kind == "ninf":
                arr[:] = -np.inf
            elif kind == "nan1":
                arr[int(fault[2]) % len(arr)] = np.nan
            elif kind == "pinf1":
                arr[int(fault[2]) % len(arr)] = np.inf
            elif kind == "huge":
                arr[:] = 1e100
            elif kind == "vast":
                # finite, but its square is not
                arr[:] = 1e200
            else:
                raise RuntimeError(f"unknown fault kind {kind}")
        return self._format(arr, scalar)

    def _format(self, arr, scalar):
        ret = self.ret
        if scalar:
            if ret == "npfloat":
                return np.float64(arr[0])
            if ret == "zero_d":
                return np.array(arr[0])
            if ret == "one_d":
                return np.array([arr[0]])
            return float(arr[0])
        if ret == "list":
            return [float(a) for a in arr]
        if ret == "tuple":
            return tuple(float(a) for a in arr)
        if ret == "strided":
            buf = np.zeros(2 * len(arr))
            buf[::2] = arr
            return buf[::2]
        if ret == "readonly":
            arr.setflags(write=False)
            return arr
        return arr

    # ------------------------------------------------------------------ probe
    def iteration_start(self, state, n_evals_per_point, n_xs, old_indices, target):
        self.iters.append(
            {
                "n_evals": len(self.delivered),
                "n_batches": len(self.batches),
                "n_evals_per_point": n_evals_per_point,
                "n_xs": n_xs,
                "target": int(target),
                "old_indices": np.array(old_indices, dtype=int).copy(),
                "now": CLOCK.now,
                "radius": float(state.trustregion.radius),
                "center": np.array(state.trustregion.center, dtype=float).copy(),
            }
        )
        if self.on_iteration is not None:
            self.on_iteration(state)

    # ------------------------------------------------------------------ evaluator
    def evaluator(self, func, arguments, *, n_cores=1, error_handling="continue",
                  unpack_symbol=None):
        if self.in_batch:
            self.protocol_errors.append("a batch was submitted while another one ran")
        if self.dead:
            self.protocol_errors.append("a batch was submitted after an interrupt")
        self.in_batch = True
        try:
            return self._run_batch(func, arguments, n_cores, error_handling)
        finally:
            self.in_batch = False

    def _run_batch(self, func, arguments, n_cores, error_handling):
        args = list(arguments)
        b = len(self.batches)
        it = len(self.iters)
        base = len(self.delivered)
        info = {
            "batch": b,
            "it": it,
            "n_tasks": len(args),
            "n_cores": n_cores,
            "error_handling": error_handling,
            "base": base,
            "t0": CLOCK.now,
            "aborted": False,
            "order": [],
        }
        self.batches.append(info)
        if self.on_batch is not None:
            self.on_batch(b)
        if self.scribble and self.prev_out is not None:
            _scribble(self.prev_args, self.prev_out)
            self.fire("scribble")
        if b in self.jumps:
            CLOCK.jump(self.jumps[b])
            self.fire("clock_jump")
        abort = self.abort.get(b)
        abort_after = None
        if abort is not None:
            if abort[1] < 0:
                self._abort(info, abort)
            abort_after = int(abort[1])

        xs = [np.array(a, dtype=float, copy=True) for a in args]
        n_tasks = len(args)
        if self.inner == "joblib":
            out = self._run_joblib(func, args, base, error_handling)
            for i in range(n_tasks):
                self.delivered.append(
                    Delivered(base + i, b, i, it, xs[i], _copy(out[i]),
                              isinstance(out[i], str), self.faults.get(base + i))
                )
            self.prev_args, self.prev_out = args, out
            info["t1"] = CLOCK.now
            return out
        workers = max(1, int(n_cores))
        rng = rng_for("pool", self.pseed, b)
        pending = list(range(n_tasks))
        if self.order == "lifo":
            pending.reverse()
        elif self.order == "random":
            pending = [int(i) for i in rng.permutation(n_tasks)]
        # stack popped from the end
        queue = [(i, 0) for i in reversed(pending)]
        heap = []
        seq = 0
        free = workers
        out = [None] * n_tasks
        done = [False] * n_tasks
        failed = [None] * n_tasks
        n_done = 0
        now = CLOCK.now
        attempts = 0
        while n_done < n_tasks:
            while free and queue:
                i, att = queue.pop()
                if done[i]:
                    continue
                dt = self._latency(rng, b, i, att)
                seq += 1
                heapq.heappush(heap, (now + dt, seq, i, att))
                free -= 1
                if att == 0 and (b, i) in self.dup:
                    queue.insert(0, (i, -1))
            if not heap:
                raise RuntimeError("simulated pool stuck")
            t, _, i, att = heapq.heappop(heap)
            now = max(now, t)
            if CLOCK.active and now > CLOCK.now:
                CLOCK.now = now
            free += 1
            attempts += 1
            crash = self.crash.get((b, i))
            if crash is not None and att >= 0 and att < int(crash[2]):
                # worker dies; the task may already have been executed
                if crash[3]:
                    try:
                        self._call(func, args, xs, base, i)
                    except Exception:
                        pass
                self.fire("worker_crash")
                self.events.append(("crash", b, i, att, round(now, 9)))
                queue.append((i, att + 1))
                continue
            res, tb = self._attempt(func, args, xs, base, i, error_handling)
            self.events.append(("done", b, i, att, round(now, 9)))
            if done[i]:
                self.fire("duplicate_result")
                continue
            out[i] = res
            failed[i] = tb
            done[i] = True
            n_done += 1
            info["order"].append(i)
            if abort_after is not None and n_done > abort_after:
                self._abort(info, abort)
        if abort is not None:
            self._abort(info, abort)
        # late duplicates still execute
        while heap:
            t, _, i, att = heapq.heappop(heap)
            if att < 0:
                self._attempt(func, args, xs, base, i, error_handling)
                self.fire("duplicate_result")
        info["t1"] = now
        for i in range(n_tasks):
            self.delivered.append(
                Delivered(base + i, b, i, it, xs[i], _copy(out[i]), failed[i] is not None,
                          self.faults.get(base + i))
            )
        self.prev_args = args
        self.prev_out = out
        if self.out_type == "tuple":
            return tuple(out)
        return out

    def _run_joblib(self, func, args, base, error_handling):
        """The real batch evaluator with one worker (no nondeterminism)."""
        from estimagic.batch_evaluators import joblib_batch_evaluator

        position = [0]

        def counted(x):
            old = self.ctx
            self.ctx = base + position[0]
            position[0] += 1
            try:
                return func(x)
            finally:
                self.ctx = old

        return joblib_batch_evaluator(
            counted, args, n_cores=1, error_handling=error_handling
        )

    def _abort(self, info, abort):
        info["aborted"] = True
        self.fire("abort:" + abort[2])
        self.dead = True
        self.injected = EXC[abort[2]]("injected evaluator failure")
        raise self.injected

    def _latency(self, rng, b, i, att):
        if self.lat == "zero":
            dt = 0.0
        elif self.lat == "unit":
            dt = 1.0
        elif self.lat == "exp":
            dt = float(rng.exponential(1.0))
        elif self.lat == "heavy":
            dt = float(rng.pareto(1.2) + 0.01)
        else:
            dt = float(rng.uniform(0.0, 1.0))
        if (b, i) in self.stall:
            dt += self.stall[(b, i)]
            self.fire("stall")
        return dt

    def _call(self, func, args, xs, base, i):
        old = self.ctx
        self.ctx = base + i
        # a worker that repeats a task starts again from the submitted argument
        arg = args[i]
        try:
            if self.mutate_arg and not np.array_equal(arg, xs[i]):
                arg = xs[i].copy()
            return func(arg)
        finally:
            self.ctx = old

    def _attempt(self, func, args, xs, base, i, error_handling):
        try:
            return self._call(func, args, xs, base, i), None
        except (KeyboardInterrupt, SystemExit):
            self.dead = True
            raise
        except Exception as e:
            if error_handling == "raise":
                self.dead = True
                raise
            tb = "".join(
                traceback.format_exception_only(type(e), e)
            )
            return "Traceback (simulated worker)\n" + tb, tb


def _copy(v):
    return v.copy() if isinstance(v, np.ndarray) else v


def _scribble(args, out):
    for a in args:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 3.3e33
    for i, o in enumerate(out):
        if isinstance(o, np.ndarray) and o.flags.writeable:
            o[...] = 4.4e44
    for i in range(len(out)):
        if not isinstance(out[i], np.ndarray):
            out[i] = 5.5e55
