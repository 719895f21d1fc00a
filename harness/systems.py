"""The six filter classes, built from a case of models.py."""
import numpy as np

from common import attempt
import models

LINEAR = ("KF", "CKF", "BKF")
SIGMA = ("UKF", "AUKF", "SUKF")
SQUARE = ("CKF", "BKF", "SUKF")


def classes():
    import pykalman
    import pykalman.sqrt
    return {"KF": pykalman.KalmanFilter, "CKF": pykalman.sqrt.CholeskyKalmanFilter,
            "BKF": pykalman.sqrt.BiermanKalmanFilter, "UKF": pykalman.UnscentedKalmanFilter,
            "AUKF": pykalman.AdditiveUnscentedKalmanFilter,
            "SUKF": pykalman.sqrt.AdditiveUnscentedKalmanFilter}


class Affine:
    """x -> M x + v, or (x, w) -> M x + v + G w"""

    def __init__(self, M, v, G=None):
        self.M, self.v, self.G = np.asarray(M), np.asarray(v), G

    def __call__(self, x, w=None):
        r = self.M.dot(x) + self.v
        if w is not None:
            r = r + (w if self.G is None else self.G.dot(w))
        return r


def entry(c, p, t, default):
    if p not in c.params:
        return default
    return c.params[p][t] if c.forms[p] == "tv" else c.params[p]


def affine_functions(c, gains=None):
    """transition and observation functions of the (affine) model of a case"""
    n, m = c.n, c.m
    G, H = gains or (None, None)

    def fs(pm, pv, rows, k, gain):
        eye = np.eye(rows, n)
        if c.forms[pm] == "tv" or c.forms[pv] == "tv":
            return [Affine(entry(c, pm, t, eye), entry(c, pv, t, np.zeros(rows)), gain) for t in range(k)]
        return Affine(entry(c, pm, 0, eye), entry(c, pv, 0, np.zeros(rows)), gain)
    f = fs("transition_matrices", "transition_offsets", n, max(1, c.T - 1), G)
    g = fs("observation_matrices", "observation_offsets", m, c.T, H)
    return f, g


def make(name, c, gains=None, **extra):
    """(object, "") or (None, what was raised)"""
    cls = classes()[name]
    kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in models.kwargs(c).items()}
    if name in SIGMA:
        f, g = affine_functions(c, gains)
        keep = ("transition_covariance", "observation_covariance", "initial_state_mean",
                "initial_state_covariance", "n_dim_state", "n_dim_obs")
        kw = {k: v for k, v in kw.items() if k in keep}
        # no function says of which dimension the spaces are
        if not any(k in kw for k in keep if k not in ("observation_covariance", "n_dim_obs")):
            kw["n_dim_state"] = c.n
        if not any(k in kw for k in ("observation_covariance", "n_dim_obs")):
            kw["n_dim_obs"] = c.m
        kw["transition_functions"], kw["observation_functions"] = f, g
    kw.update(extra)
    return attempt(cls, **kw)
