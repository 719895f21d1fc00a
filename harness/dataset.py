"""C22: the bundled robot data set (modules TraceDataset and Kalman)."""
import os

import numpy as np

from common import NOARR, REPO, arr, attempt, nums
import linear
import readings as rd
from scen import size
from systems import LINEAR, classes

FIELDS = ["observations", "states", "transition_matrix", "transition_offsets", "observation_matrix", "observation_offset",
          "initial_transition_covariance", "initial_observation_covariance", "transition_covariance", "observation_covariance",
          "initial_state_mean", "initial_state_covariance", "filtered_state_means", "filtered_state_covariances",
          "smoothed_state_means", "smoothed_state_covariances", "loglikelihoods", "n_timesteps"]


def raw():
    from scipy import io
    d = io.loadmat(os.path.join(REPO, "pykalman", "datasets", "data", "robot.mat"))
    out = {}
    for k, v in d.items():
        if k.startswith("__"):
            continue
        if v.dtype == object:
            v = np.stack([np.asarray(x, dtype=float) for x in v[0]])
        out[k] = arr(v)
    return out


def loaded(ident, raws, mangle=False):
    from pykalman.datasets import load_robot
    data, err = attempt(load_robot)
    got = {}
    if not err:
        for f in FIELDS:
            try:
                # by attribute and by key
                v = getattr(data, f) if ident.endswith("attribute") else data[f]
                got[f] = arr(v)
            except Exception:
                pass
        if mangle:
            for f in FIELDS:
                try:
                    if isinstance(data[f], np.ndarray) and data[f].flags.writeable:
                        data[f][...] = 7
                except Exception:
                    pass
    return {"id": ident, "err": err, "raw": raws, "got": got, "scenario": {"loaded": ident}}, data


def model(data, first, covs):
    kw = dict(transition_matrices=data.transition_matrix, observation_matrices=data.observation_matrix,
              transition_covariance=data[covs + "transition_covariance"], observation_covariance=data[covs + "observation_covariance"],
              transition_offsets=data.transition_offsets, observation_offsets=data.observation_offset,
              initial_state_mean=data.initial_state_mean, initial_state_covariance=data.initial_state_covariance)
    return kw


def estimates(data, covs, readings, ident):
    kw = model(data, True, covs)
    given = {p: ({"form": "tv", "v": nums(v)} if p == "transition_offsets" else {"form": "const", "v": [nums(v)]}) for p, v in kw.items()}
    Z = data.observations
    mask = np.ma.getmaskarray(Z)
    obs = [{"miss": bool(mask[t].any()), "y": [] if mask[t].any() else nums(np.ma.getdata(Z)[t])} for t in range(len(Z))]
    return {"id": ident, "given": given, "n_dim_state": 0, "n_dim_obs": 0, "obs": obs, "readings": readings(kw, Z), "scenario": {"data set": ident}}


def stored(data, name, kind, mean, cov, tol):
    r = rd.belief_reading(name, kind, (data[mean], data[cov]), "", len(data[mean]), tol)
    return r


def value(who, x, tol):
    r = rd.belief_reading(who, "loglik", None, "-", 0, tol)
    r["err"], r["val"] = "", repr(float(x))
    return r


def c22(ck):
    ck.design("MCKalman", linear.MC % (2, "11"))
    ck.assumptions = linear.TRUSTED + ["the data file is read with scipy.io; the estimates stored in it are accurate to 1e-7 relative"]
    raws = raw()
    cases = []
    first, data = loaded("first-attribute", raws)
    cases.append(first)
    cases.append(loaded("second-key", raws, mangle=True)[0])
    cases.append(loaded("third-key", raws)[0])
    ck.judge("TraceDataset", "TraceDataset.cfg", cases, lambda c: {k: c[k] for k in ("id", "err")})
    if data is None or ck.failures:
        return

    def after(kw, Z):
        rs = []
        for name in LINEAR:
            kf, err = attempt(classes()[name], **{k: np.array(v) for k, v in kw.items()})
            rs += [rd.filtered(kf, Z.copy(), len(Z), "1e-9", name + ".filter(robot)", err),
                   rd.smoothed(kf, Z.copy(), len(Z), "1e-9", name + ".smooth(robot)", err),
                   rd.loglik(kf, Z.copy(), "1e-9", name + ".loglikelihood(robot)", err)]
            # the model as it is handed out
            if name == "KF":
                kf, err = attempt(classes()[name], **kw)
                rs.append(rd.filtered(kf, Z, len(Z), "1e-9", name + ".filter(robot as loaded)", err))
        rs.append(stored(data, "stored filtered estimates", "filtered", "filtered_state_means", "filtered_state_covariances", "1e-7"))
        rs.append(stored(data, "stored smoothed estimates", "smoothed", "smoothed_state_means", "smoothed_state_covariances", "1e-7"))
        return rs

    def before(kw, Z):
        kf, err = attempt(classes()["KF"], **{k: np.array(v) for k, v in kw.items()})
        return [rd.loglik(kf, Z.copy(), "1e-9", "KF.loglikelihood(robot before EM)", err),
                value("stored likelihood before EM", data.loglikelihoods[0], "1e-7")]
    out, err = attempt(lambda: [estimates(data, "", after, "fitted"), estimates(data, "initial_", before, "before fitting")])
    if err:
        raise Exception(err)
    linear.judge(ck, out)
