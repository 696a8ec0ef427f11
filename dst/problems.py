"""Objective functions of the simulated world (pure functions of their spec)."""
import numpy as np

from dst.util import rng_for


class Problem:
    def __init__(self, spec):
        self.spec = spec
        self.functype = spec["functype"]
        self.family = spec["family"]
        self.dim = n = int(spec["dim"])
        self.x0 = np.array(spec["x0"], dtype=float)
        self.lb = _bound(spec.get("lb"))
        self.ub = _bound(spec.get("ub"))
        r = rng_for("problem", spec["pseed"], self.functype, self.family, n)
        self.target = np.array(spec["target"], dtype=float)
        self.scale = float(spec.get("scale", 1.0))
        self.shiftval = float(spec.get("shift", 0.0))
        self.m = int(spec.get("nres", n))
        m = self.m
        a = r.standard_normal((m, n)) / np.sqrt(n)
        k = min(m, n)
        a[:k, :k] += 1.5 * np.eye(k)
        self.A = a
        self.w = r.uniform(0.5, 2.0, size=n)
        self.c = r.uniform(-1, 1, size=m)
        self.nl = float(spec.get("nonlin", 0.0))
        self.tilt = float(spec.get("tilt", 0.0))
        self.name = f"{self.functype}/{self.family}"

    # residual vectors -----------------------------------------------------------
    def _resid(self, x):
        d = x - self.target
        fam = self.family
        if fam == "lin":
            return self.A @ d + self.nl * self.c
        if fam == "sep":
            out = np.zeros(self.m)
            k = min(self.m, self.dim)
            out[:k] = (self.w * d)[:k]
            return out
        if fam == "sin":
            return self.A @ d + self.nl * np.sin(self.A @ d * 2 + self.c)
        if fam == "rosen":
            out = np.zeros(self.m)
            z = d + 1.0
            vals = []
            for i in range(self.dim - 1):
                vals += [3 * (z[i + 1] - z[i] ** 2), 1 - z[i]]
            if self.dim == 1:
                vals = [1 - z[0]]
            vals = np.array(vals)
            k = min(self.m, len(vals))
            out[:k] = vals[:k]
            return out
        if fam == "exp":
            return np.exp(np.clip(self.A @ d, -30, 30)) - 1.0
        if fam == "const":
            return self.c + 0.0
        if fam == "abs":
            return np.sqrt(np.abs(self.A @ d))
        if fam == "step":
            return np.round(self.A @ d * 2)
        raise ValueError(fam)

    def value(self, x):
        """Noise-free value: float for scalar, 1d array otherwise."""
        x = np.asarray(x, dtype=float)
        if self.functype == "least_squares":
            return self.scale * self._resid(x)
        if self.functype == "likelihood":
            if self.family == "balanced":
                # contributions that cancel in the sum
                half = self.A[: self.m // 2] @ (x - self.target)
                out = np.zeros(self.m)
                out[: 2 * len(half) : 2] = half
                out[1 : 2 * len(half) : 2] = -half
                return self.scale * out
            r = self._resid(x)
            return self.scale * (0.5 * r**2 + 0.1)
        fam = self.family
        d = x - self.target
        if fam in ("lin", "sin", "exp", "sep", "rosen", "const", "step", "abs"):
            r = self._resid(x)
            out = float(r @ r)
        elif fam == "cos":
            out = float(d @ d + 2.0 * np.sum(1 - np.cos(2 * np.pi * d)))
        elif fam == "linear":
            out = float(self.c[: self.dim].sum() * 0 + self.w @ d)
        elif fam == "l1":
            out = float(np.abs(d).sum())
        elif fam == "quart":
            out = float(np.sum(d**4) + 0.1 * d @ d)
        elif fam == "saddle":
            e = self.A @ d
            e = e * e
            out = float(e[1::2].sum() - e[::2].sum() + 0.01 * np.sum(d**4))
            out += self.tilt * float(self.w @ d)
        elif fam == "trough":
            out = float((self.A[0] @ d) ** 2) * 3 + self.tilt * float(self.w @ d)
        else:
            raise ValueError(fam)
        return self.scale * out + self.shiftval

    def fval(self, x):
        v = self.value(x)
        if self.functype == "scalar":
            return float(v)
        if self.functype == "least_squares":
            return float((np.asarray(v) ** 2).sum())
        return float(np.asarray(v).sum())

    @property
    def n_resid(self):
        return 1 if self.functype == "scalar" else self.m


def _bound(b):
    if b is None:
        return None
    return np.array([float(v) for v in b], dtype=float)


def aggregate(functype, fvec):
    fvec = np.asarray(fvec, dtype=float)
    if functype == "scalar":
        return float(fvec.reshape(-1)[0])
    if functype == "least_squares":
        return float((fvec**2).sum())
    return float(fvec.sum())


def random_domain_fault(rng, problem_x0, scale):
    """A ball of the domain in which every evaluation fails (never at x0)."""
    n = len(problem_x0)
    direction = rng.standard_normal(n)
    direction /= np.linalg.norm(direction)
    dist = scale * rng.uniform(0.1, 3.0)
    if rng.random() < 0.5:
        return {
            "shape": "half",
            "normal": direction.tolist(),
            "offset": float(direction @ problem_x0 + dist),
        }
    return {
        "shape": "ball",
        "center": (problem_x0 + direction * dist).tolist(),
        "radius": float(dist * rng.uniform(0.3, 0.95)),
    }


def in_domain_fault(fault, x):
    x = np.asarray(x, dtype=float)
    if fault["shape"] == "half":
        return float(np.dot(fault["normal"], x)) >= fault["offset"]
    return (
        float(np.linalg.norm(x - np.asarray(fault["center"], dtype=float)))
        <= fault["radius"]
    )
