"""Process set-up: environment, virtual clock and the import of the code under test.

``setup`` has to run before numpy / numba / tranquilo are imported.
"""
import os
import sys
import time

REPO = os.environ.get("DST_REPO", "/repo")

_REAL = {
    name: getattr(time, name)
    for name in ("time", "perf_counter", "monotonic", "process_time", "sleep")
}
_REAL_NS = {
    name: getattr(time, name)
    for name in ("time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns")
}


class VirtualClock:
    """Clock read by everything in the process while ``active`` is set.

    ``now`` is the monotonic clock, the wall clock is ``now + wall_offset`` and can jump
    in both directions, CPU time does not advance while workers are busy.

    """

    def __init__(self):
        self.active = False
        self.now = 0.0
        self.wall_offset = 0.0
        self.reads = 0

    def start(self, base=1_000_000.0):
        self.active = True
        self.now = float(base)
        self.wall_offset = 1.7e9
        self.reads = 0

    def read(self, name):
        self.reads += 1
        if name.startswith("time"):
            return self.now + self.wall_offset
        if name.startswith("process_time"):
            return 1e-6 * self.reads
        return self.now

    def jump(self, dt):
        self.wall_offset += dt

    def stop(self):
        self.active = False

    def advance(self, dt):
        if dt > 0:
            self.now += dt


CLOCK = VirtualClock()


def _install_clock():
    def make(name, real):
        def _now():
            if CLOCK.active:
                return CLOCK.read(name)
            return real()

        return _now

    def make_ns(name, real):
        def _now_ns():
            if CLOCK.active:
                return int(CLOCK.read(name) * 1e9)
            return real()

        return _now_ns

    for name, real in _REAL.items():
        if name == "sleep":
            continue
        setattr(time, name, make(name, real))
    for name, real in _REAL_NS.items():
        setattr(time, name, make_ns(name, real))

    def _sleep(dt):
        if CLOCK.active:
            CLOCK.advance(dt)
            return
        _REAL["sleep"](dt)

    time.sleep = _sleep


def real_time():
    return _REAL["time"]()


def real_sleep(dt):
    _REAL["sleep"](dt)


def setup(jit=False):
    for var in (
        "OMP_NUM_THREADS",
        "OPENBLAS_NUM_THREADS",
        "MKL_NUM_THREADS",
        "NUMBA_NUM_THREADS",
    ):
        os.environ[var] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    _install_clock()
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import tranquilo
    import tranquilo.tranquilo  # noqa: F401

    got = os.path.realpath(tranquilo.__file__)
    if not got.startswith(os.path.realpath(src) + os.sep):
        raise SystemExit(f"harness error: imported {got}, expected below {src}")
    # import lazily imported modules now, outside any simulated run
    import estimagic.batch_evaluators  # noqa: F401
