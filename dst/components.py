"""User-written components of the simulated caller (samplers, fitters, filters, ...)."""
import numpy as np


def user_sampler(trustregion, n_points, existing_xs, rng):
    """Uniform draws from the (ball or box) trust region."""
    n = len(trustregion.center)
    raw = rng.normal(size=(n_points, n))
    if trustregion.shape == "sphere":
        norm = np.sqrt((raw**2).sum(axis=1, keepdims=True))
        unit = raw / np.where(norm > 0, norm, 1.0)
        unit = unit * 0.999 * rng.uniform(size=(n_points, 1)) ** (1 / n)
    else:
        unit = rng.uniform(-1, 1, size=(n_points, n))
    return np.array([trustregion.map_from_unit(u) for u in unit]).reshape(n_points, n)


def user_fitter(x, y, model_type):
    """Linear model plus (for quadratic model types) ridge-like second order terms."""
    n = x.shape[1]
    cols = [np.ones(len(x))] + [x[:, i] for i in range(n)]
    if model_type == "quadratic":
        for i in range(n):
            for j in range(i, n):
                f = x[:, i] * x[:, j]
                cols.append(0.5 * f if i == j else f)
    feats = np.column_stack(cols)
    coef, *_ = np.linalg.lstsq(feats, y, rcond=None)
    return coef.T


def user_filter(xs, indices):
    return xs, indices


def user_cube_solver(model, x_candidate, lower_bounds, upper_bounds):
    """Projected steepest descent in the unit cube."""
    x = np.array(x_candidate, dtype=float)
    return _descent(model, x, lambda z: np.clip(z, lower_bounds, upper_bounds))


def user_sphere_solver(model, x_candidate):
    x = np.array(x_candidate, dtype=float)

    def project(z):
        norm = float(np.sqrt(z @ z))
        return z / norm if norm > 1 else z

    return _descent(model, x, project)


def _descent(model, x, project):
    g = np.asarray(model.linear_terms, dtype=float)
    h = model.square_terms
    h = np.zeros((len(g), len(g))) if h is None else np.asarray(h, dtype=float)

    def f(z):
        return float(g @ z + 0.5 * z @ h @ z)

    best, fbest = x, f(x)
    step = 1.0
    for _ in range(30):
        z = project(best - step * (g + h @ best))
        fz = f(z)
        if fz < fbest:
            best, fbest = z, fz
        else:
            step *= 0.5
    return {"x": best, "criterion": fbest, "n_iterations": 30, "success": True}
