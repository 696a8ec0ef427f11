"""Runs jobs in forked children, several at a time, with CPU and wall limits.

A child starts from the state the parent had after the imports, so what a scenario does
cannot leak into another one and replaying it alone gives the same execution.

"""
import os
import pickle
import resource
import select
import signal
import struct
import time

from dst import env
from dst.util import HarnessError


class Result:
    __slots__ = ("key", "status", "value", "cpu", "wall")

    def __init__(self, key, status, value, cpu, wall):
        self.key = key
        self.status = status  # ok | error | cpu | wall | died
        self.value = value
        self.cpu = cpu
        self.wall = wall


def _child(w, func, arg, cpu_limit):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (int(cpu_limit), int(cpu_limit) + 5))
        signal.signal(signal.SIGXCPU, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            data = pickle.dumps(("ok", func(arg)))
        except BaseException as e:  # noqa: BLE001
            import traceback

            tb = traceback.format_exc()
            data = pickle.dumps(("error", f"{type(e).__name__}: {e}\n{tb[-1500:]}"))
        with os.fdopen(w, "wb") as f:
            f.write(struct.pack("<Q", len(data)) + data)
    finally:
        os._exit(0)


def run_jobs(jobs, func, *, workers=8, cpu_limit=120, wall_limit=400, stop=None):
    """Yield a Result per job (key, arg), in completion order.

    ``stop()`` is asked before each start; once it is true no more jobs start.

    """
    jobs = iter(jobs)
    live = {}
    exhausted = False
    try:
        while True:
            while not exhausted and len(live) < workers:
                if stop is not None and stop():
                    exhausted = True
                    break
                try:
                    key, arg = next(jobs)
                except StopIteration:
                    exhausted = True
                    break
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for fd in live:
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                    _child(w, func, arg, cpu_limit)
                os.close(w)
                live[r] = [pid, key, bytearray(), env.real_time()]
            if not live:
                return
            ready, _, _ = select.select(list(live), [], [], 1.0)
            now = env.real_time()
            for fd in list(live):
                pid, key, buf, t0 = live[fd]
                if fd in ready:
                    chunk = os.read(fd, 1 << 20)
                    if chunk:
                        buf.extend(chunk)
                        continue
                    os.close(fd)
                    del live[fd]
                    # the zombie still owns the pid, so nothing else can be hit
                    _kill_group(pid)
                    _, status, ru = os.wait4(pid, 0)
                    cpu = ru.ru_utime + ru.ru_stime
                    yield _decode(key, buf, status, cpu, now - t0)
                elif now - t0 > wall_limit:
                    _kill_group(pid)
                    os.close(fd)
                    del live[fd]
                    _, status, ru = os.wait4(pid, 0)
                    yield Result(key, "wall", None, ru.ru_utime + ru.ru_stime, now - t0)
    finally:
        for fd, (pid, _, _, _) in live.items():
            _kill_group(pid)
            try:
                os.close(fd)
                os.waitpid(pid, 0)
            except OSError:
                pass


def _kill_group(pid):
    for kill in (lambda: os.killpg(pid, signal.SIGKILL),
                 lambda: os.kill(pid, signal.SIGKILL)):
        try:
            kill()
        except (ProcessLookupError, PermissionError):
            pass


def _decode(key, buf, status, cpu, wall):
    if len(buf) >= 8:
        n = struct.unpack("<Q", bytes(buf[:8]))[0]
        if len(buf) == n + 8:
            kind, value = pickle.loads(bytes(buf[8:]))
            return Result(key, kind, value, cpu, wall)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
        signal.SIGXCPU, signal.SIGKILL
    ) and cpu > 5:
        return Result(key, "cpu", None, cpu, wall)
    return Result(key, "died", f"child ended with status {status}", cpu, wall)


def run_one(func, arg, **kw):
    for res in run_jobs([(0, arg)], func, workers=1, **kw):
        return res
    raise HarnessError("no result")


__all__ = ["run_jobs", "run_one", "Result", "time"]
