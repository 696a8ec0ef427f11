import hashlib
import json
import struct

import numpy as np


def h64(*parts):
    """Deterministic 64 bit hash of simple values (independent of PYTHONHASHSEED)."""
    m = hashlib.blake2b(digest_size=8)
    m.update(json.dumps(parts, sort_keys=True, default=str).encode())
    return int.from_bytes(m.digest(), "big")


def rng_for(*parts):
    return np.random.Generator(np.random.PCG64(h64(*parts)))


def _norm_draws(key, n):
    """n standard normal draws that depend only on key."""
    return rng_for(key).standard_normal(n)


class Digest:
    def __init__(self):
        self.m = hashlib.blake2b(digest_size=16)

    def add(self, *values):
        for v in values:
            self._add(v)
        return self

    def _add(self, v):
        m = self.m
        if v is None:
            m.update(b"N")
        elif isinstance(v, (bool, np.bool_)):
            m.update(b"b1" if v else b"b0")
        elif isinstance(v, (int, np.integer)):
            m.update(b"i" + str(int(v)).encode())
        elif isinstance(v, (float, np.floating)):
            m.update(b"f" + struct.pack("<d", float(v)))
        elif isinstance(v, str):
            m.update(b"s" + v.encode())
        elif isinstance(v, np.ndarray):
            a = np.ascontiguousarray(v, dtype=float)
            m.update(b"a" + str(a.shape).encode() + (a + 0.0).tobytes())
        elif isinstance(v, (list, tuple)):
            m.update(b"l" + str(len(v)).encode())
            for x in v:
                self._add(x)
        else:
            m.update(b"r" + repr(v).encode())

    def hex(self):
        return self.m.hexdigest()


class Violation(Exception):
    """A property violation. ``rule`` is the class that shrinking preserves."""

    def __init__(self, rule, message):
        super().__init__(f"{rule}: {message}")
        self.rule = rule
        self.message = message


class HarnessError(Exception):
    pass
