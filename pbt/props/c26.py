"""C26: simulated data sets."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import norm

import doubleml as dml
from doubleml import datasets as ds
from doubleml.rdd.datasets import make_simple_rdd_data

from .. import gen
from ..core import close, ensure, raises, same, sub

RULE = """A case is a generator, a size, parameters and a seed. All return formats are produced from the same seed and compared with each other;
the defining equations are checked exactly where the noise can be recovered or switched off (parameters at zero, differences between two calls
that differ in one parameter, returned oracle values), otherwise by moment conditions at more than 7 standard errors. Non-trivial: at least two
formats or two parameter values compared on at least 10 observations."""
ASSUMPTIONS = ["moment conditions are tested at 7 standard errors", "two calls that differ only in an effect parameter use the same random numbers"]

ARR, DF, DML = ["array", "np.ndarray", "np.array", np.ndarray], ["DataFrame", "pd.DataFrame", pd.DataFrame], ["DoubleMLData", dml.DoubleMLData]
CLU = ["DoubleMLClusterData", dml.DoubleMLClusterData]
SIMPLE = {
    "plr": (ds.make_plr_CCDDHNR2018, "n_obs", "dim_x", "alpha", 3, "xyd"),
    "turrell": (ds.make_plr_turrell2018, "n_obs", "dim_x", "theta", 1, "xyd"),
    "irm": (ds.make_irm_data, "n_obs", "dim_x", "theta", 1, "xyd"),
    "iivm": (ds.make_iivm_data, "n_obs", "dim_x", "theta", 1, "xydz"),
    "pliv": (ds.make_pliv_CHS2015, "n_obs", "dim_x", "alpha", 3, "xydz"),
    "cluster": (ds.make_pliv_multiway_cluster_CKMS2021, "N", "dim_X", "theta", 1, "xydcz"),
    "did": (ds.make_did_SZ2020, "n_obs", None, None, 4, "xyd"),
    "didcs": (ds.make_did_SZ2020, "n_obs", None, None, 4, "xydt"),
    "ssm": (ds.make_ssm_data, "n_obs", "dim_x", "theta", 1, "xyds"),
    "ssmz": (ds.make_ssm_data, "n_obs", "dim_x", "theta", 1, "xydzs"),
}
MODEL = {"plr": lambda d, a, b: dml.DoubleMLPLR(d, a, a, n_folds=2), "turrell": lambda d, a, b: dml.DoubleMLPLR(d, a, a, n_folds=2),
         "irm": lambda d, a, b: dml.DoubleMLIRM(d, a, b, n_folds=2), "iivm": lambda d, a, b: dml.DoubleMLIIVM(d, a, b, b, n_folds=2),
         "pliv": lambda d, a, b: dml.DoubleMLPLIV(d, a, a, a, n_folds=2), "cluster": lambda d, a, b: dml.DoubleMLPLIV(d, a, a, a, n_folds=2),
         "did": lambda d, a, b: dml.DoubleMLDID(d, a, b, n_folds=2), "didcs": lambda d, a, b: dml.DoubleMLDIDCS(d, a, b, n_folds=2),
         "ssm": lambda d, a, b: dml.DoubleMLSSM(d, a, b, b, n_folds=2), "ssmz": lambda d, a, b: dml.DoubleMLSSM(d, a, b, b, score="nonignorable", n_folds=2)}


DEFAULTS = {"plr": {"alpha": 0.5}, "turrell": {"theta": 0.5}, "irm": {"theta": 0, "R2_d": 0.5, "R2_y": 0.5}, "iivm": {"theta": 1.0, "alpha_x": 0.2}, "pliv": {"alpha": 1.0},
            "cluster": {"theta": 1.0}, "did": {"dgp_type": 1, "cross_sectional_data": False}, "didcs": {"dgp_type": 1, "lambda_t": 0.5},
            "ssm": {"theta": 1, "mar": True}, "ssmz": {"theta": 1}}


def z3_moments():
    """Mean and standard deviation of (0.6 + x0 x2 / 25)^3 for independent standard normal x0, x2."""
    t, w = np.polynomial.hermite_e.hermegauss(30)
    w = np.outer(w, w) / w.sum() ** 2
    v = (0.6 + np.outer(t, t) / 25) ** 3
    m = np.sum(w * v)
    return m, np.sqrt(np.sum(w * (v - m) ** 2))


def untransform(z):
    """Approximate covariates behind the transformed ones (standardization inverted with population moments)."""
    e = np.exp(0.125)
    x0 = 2 * np.log(np.maximum(z[:, 0] * e * np.sqrt(np.exp(0.25) - 1) + e, 1e-3))
    t, w = np.polynomial.hermite_e.hermegauss(60)
    x1 = z[:, 1] * np.sqrt(np.sum(w * (1 + np.exp(t)) ** -2.0) / w.sum()) * (1 + np.exp(x0))
    m, sd = z3_moments()
    x02 = 25 * (np.cbrt(z[:, 2] * sd + m) - 0.6)
    x13 = np.sqrt(np.maximum(z[:, 3] * np.sqrt(4 * 400 * 2 + 2 * 4) + 402, 0)) - 20
    return x0, x1, x02, x13


def seeded(seed, f, *a, **k):
    np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def z7(v, what, mean=0.0):
    """mean(v) = mean within 7 standard errors."""
    v = np.asarray(v, dtype=float)
    se = max(v.std(ddof=1), 1e-12) / np.sqrt(len(v))
    ensure(abs(v.mean() - mean) <= 7 * se + 1e-9, f"{what}: mean {v.mean():.4g} instead of {mean} (standard error {se:.2g})")


@sub("formats", st.fixed_dictionaries({"g": st.sampled_from(sorted(SIMPLE)), "n": st.integers(20, 120), "p": st.integers(0, 6), "pz": st.integers(0, 2),
                                       "eff": st.sampled_from([0, 0.5, -2.0, 3]), "dgp": st.integers(1, 6), "s": gen.SEED, "a": st.integers(0, 50)}), quick=1500)
def formats(spec, cx):
    g = spec["g"]
    f, kn, kp, ke, lo, roles = SIMPLE[g]
    n, p = spec["n"], lo + spec["p"]
    kw = {}
    if g == "cluster":
        kw = {"N": 2 + n % 9, "M": 3 + n % 7, kp: p}
        n = kw["N"] * kw["M"]
    else:
        kw = {kn: n}
        if kp:
            kw[kp] = p
    if ke:
        kw[ke] = spec["eff"]
    pz = 1
    if g == "pliv":
        pz = kw["dim_z"] = 1 + spec["pz"]
    if g in ("did", "didcs"):
        p = 4
        kw.update(dgp_type=spec["dgp"], cross_sectional_data=g == "didcs")
    if g in ("ssm", "ssmz"):
        kw["mar"] = g == "ssm"
    a = spec["a"]
    main = CLU if g == "cluster" else DML
    res = {}
    for nm, kind in (("arr", ARR[a % 4]), ("df", DF[a % 3]), ("dml", main[a % 2])):
        before = np.geterr()
        res[nm] = seeded(spec["s"], f, **kw, return_type=kind)
        res[nm, "rng"] = np.random.get_state()[1:3]
        ensure(np.geterr() == before, "numpy error state changed")
    dflt = seeded(spec["s"], f, **kw)
    for nm in ("df", "dml"):
        same(res[nm, "rng"], res["arr", "rng"], "consumed random numbers differ between formats")
    A, D, M = res["arr"], res["df"], res["dml"]
    ensure(isinstance(A, tuple) and isinstance(D, pd.DataFrame) and type(M) is (dml.DoubleMLClusterData if g == "cluster" else dml.DoubleMLData),
           f"types {type(A)}, {type(D)}, {type(M)}")
    ensure(type(dflt) is type(M), "default format")
    same(dflt.data, M.data, "default format")
    docd = {k: v for k, v in DEFAULTS[g].items() if k not in ("mar", "cross_sectional_data") or g in ("ssm", "did")}
    less = {k: v for k, v in kw.items() if k not in docd}
    same(seeded(spec["s"], f, **less).data, seeded(spec["s"], f, **{**less, **docd}).data, "documented default parameters")
    same(D, M.data, "table and data object")
    order = {"ssm": "xydzs", "did": "xyd?"}.get(g, roles)
    ensure(len(A) == len(order), f"{len(A)} arrays returned")
    V = dict(zip(order, A))
    ensure(V["x"].shape == (n, p), f"covariates {V['x'].shape}, requested {(n, p)}")
    for k in "yd":
        ensure(V[k].shape == (n,), f"{k} has shape {V[k].shape}")
    ensure(np.all([np.all(np.isfinite(np.asarray(v, dtype=float))) for k, v in V.items() if k != "?"]), "values not finite")
    close(M.x, V["x"], "covariates of the data object", 1e-12)
    close(M.y, V["y"], "outcome of the data object", 1e-12)
    close(M.d, V["d"], "treatment of the data object", 1e-12)
    ensure(M.n_obs == n and len(M.x_cols) == p and M.n_treat == 1, "sizes of the data object")
    if "z" in roles:
        close(np.asarray(M.z).reshape(n, -1), np.asarray(V["z"]).reshape(n, -1), "instruments of the data object", 1e-12)
        ensure(M.n_instr == pz, f"{M.n_instr} instruments")
    else:
        ensure(M.z_cols is None, "unexpected instruments")
    if "s" in roles:
        close(M.s, V["s"], "selection of the data object", 1e-12)
    else:
        ensure(M.s_col is None, "unexpected selection variable")
    if "t" in roles:
        close(M.t, V["t"], "time of the data object", 1e-12)
        ensure(set(np.unique(M.t)) <= {0, 1}, "time variable not binary")
    else:
        ensure(M.t_col is None, "unexpected time variable")
    if g == "cluster":
        same(np.asarray(M.cluster_vars), np.asarray(V["c"]), "cluster variables")
        want = np.array([(i, j) for i in range(kw["N"]) for j in range(kw["M"])])
        ensure(set(map(tuple, V["c"].tolist())) == set(map(tuple, want.tolist())) and len(V["c"]) == len(want), "cluster cells")
    if g in ("irm", "iivm", "did", "didcs", "ssm", "ssmz"):
        ensure(set(np.unique(V["d"])) <= {0, 1}, "treatment not binary")
    if g == "iivm":
        ensure(set(np.unique(V["z"])) <= {0, 1}, "instrument not binary")
    if "s" in roles:
        ensure(set(np.unique(V["s"])) <= {0, 1}, "selection not binary")
        ensure(np.all((V["y"] == 0) == (V["s"] == 0)), "the outcome is reported exactly for selected observations")
    # same seed, same data; other seed, other data
    again = seeded(spec["s"], f, **kw, return_type=ARR[a % 4])
    for u, v in zip(A, again):
        same(u, v, "same random state, other data")
    other = seeded(spec["s"] + 1, f, **kw, return_type=ARR[a % 4])
    ensure(not np.array_equal(other[0], A[0]) and not np.array_equal(other[1], A[1]), "another random state gives the same data")
    # the effect parameter
    if ke:
        kw2 = {**kw, ke: spec["eff"] + 1.5}
        B = dict(zip(order, seeded(spec["s"], f, **kw2, return_type="array")))
        for k in V:
            if k not in "y?":
                same(B[k], V[k], f"{k} depends on the effect parameter")
        sel = V["s"] if "s" in roles else 1.0
        close(B["y"] - V["y"], 1.5 * V["d"] * sel, "outcome as a function of the effect parameter", 1e-8, 1e-9)
    # the data can be used in the model they are made for
    from ..learners import Cls, Reg
    MODEL[g](M, Reg(), Cls())
    raises(ValueError, lambda: f(**kw, return_type="matrix"), "unknown format")
    cx.label(g)
    cx.nontrivial(n >= 10)


def decay(q, p):
    return np.array([q ** k for k in range(p)])


@sub("equations", st.fixed_dictionaries({"g": st.sampled_from(["plr", "turrell", "irm", "iivm", "pliv", "cluster", "did", "didcs", "ssm"]), "p": st.integers(0, 3),
                                         "v": st.lists(st.sampled_from([-1.0, 0.0, 0.5, 2.0]), min_size=6, max_size=6), "dgp": st.integers(1, 6), "s": gen.SEED}), quick=900)
def equations(spec, cx):
    g, v, s = spec["g"], spec["v"], spec["s"]
    f, kn, kp, ke, lo, roles = SIMPLE[g]
    p = lo + spec["p"]
    n = 2500
    sig = lambda t: 1 / (1 + np.exp(-t))  # noqa: E731
    b2 = 1.0 / np.arange(1, p + 1) ** 2
    if g == "plr":
        kw = dict(zip(("a_0", "a_1", "b_0", "b_1"), v))
        x, y, d = seeded(s, f, n_obs=n, dim_x=p, alpha=v[4], s_1=0.0, s_2=0.0, return_type="array", **kw)
        close(d, v[0] * x[:, 0] + v[1] * sig(x[:, 2]), "treatment without noise", 1e-8, 1e-9)
        close(y, v[4] * d + v[2] * sig(x[:, 0]) + v[3] * x[:, 2], "outcome without noise", 1e-8, 1e-9)
        x2, y2, d2 = seeded(s, f, n_obs=n, dim_x=p, alpha=v[4], s_1=2.0, s_2=3.0, return_type="array", **kw)
        e, u = (d2 - v[0] * x2[:, 0] - v[1] * sig(x2[:, 2])) / 2, (y2 - v[4] * d2 - v[2] * sig(x2[:, 0]) - v[3] * x2[:, 2]) / 3
        for q, w in ((e, "treatment noise"), (u, "outcome noise")):
            z7(q, w)
            z7(q ** 2, w + " variance", 1.0)
        z7(e * u, "correlation of the noise")
        for k in range(1, p):
            z7(x[:, 0] * x[:, k], "covariance of the covariates", 0.7 ** k)
        x3, y3, d3 = seeded(s, f, n_obs=50, dim_x=p, return_type="array", s_1=0.0, s_2=0.0)
        close(d3, x3[:, 0] + 0.25 * sig(x3[:, 2]), "default parameters, treatment", 1e-8, 1e-9)
        close(y3, 0.5 * d3 + sig(x3[:, 0]) + 0.25 * x3[:, 2], "default parameters, outcome", 1e-8, 1e-9)
    elif g == "turrell":
        nu, ga = v[0], 1.0 + abs(v[1])
        x, y, d = seeded(s, f, n_obs=n, dim_x=p, theta=v[2], return_type="array", nu=nu, gamma=ga)
        xb = x @ (1.0 / np.arange(1, p + 1))
        e = d - 0.5 / np.pi * np.sinh(ga) / (np.cosh(ga) - np.cos(xb - nu))
        u = y - v[2] * d - np.sin(xb) ** 2
        for q, w in ((e, "treatment noise"), (u, "outcome noise")):
            z7(q, w)
            z7(q ** 2, w + " variance", 1.0)
            z7(q * xb, w + " and covariates")
            z7(q * np.sin(xb) ** 2, w + " and sin(xb)^2")
            z7(q * np.cos(xb - nu), w + " and cos(xb)")
    elif g == "irm":
        r2y, r2d = [0.0, 0.3, 0.5, 0.8][int(abs(v[0]) * 2) % 4], [0.0, 0.2, 0.5][int(abs(v[1]) * 2) % 3]
        x, y, d = seeded(s, f, n_obs=n, dim_x=p, theta=v[2], R2_y=r2y, R2_d=r2d, return_type="array")
        S = 0.5 ** np.abs(np.subtract.outer(np.arange(p), np.arange(p)))
        q = b2 @ S @ b2
        cy, cd = np.sqrt(r2y / ((1 - r2y) * q)), np.sqrt(np.pi ** 2 / 3 * r2d / ((1 - r2d) * q))
        u = y - v[2] * d - cy * d * (x @ b2)
        pr = sig(cd * x @ b2)
        z7(u, "outcome noise")
        z7(u ** 2, "outcome noise variance", 1.0)
        z7(u * d, "outcome noise and treatment")
        z7(u * d * x[:, 0], "outcome noise and treatment times covariate")
        z7(d - pr, "treatment probability")
        z7((d - pr) * x[:, 0], "treatment probability and covariate")
        for k in range(1, p):
            z7(x[:, 0] * x[:, k], "covariance of the covariates", 0.5 ** k)
    elif g == "iivm":
        ax = abs(v[0])
        x, y, d, z = seeded(s, f, n_obs=n, dim_x=p, theta=v[1], alpha_x=ax, return_type="array")
        x2, y2, d2, z2 = seeded(s, f, n_obs=n, dim_x=p, theta=v[1], alpha_x=ax + 0.7, return_type="array")
        ensure(np.all(d2 >= d) and np.all(d2[z2 == 0] == d[z == 0]), "treatment is not monotone in the instrument's strength")
        u = y - v[1] * d - x @ b2
        close(u, y2 - v[1] * d2 - x2 @ b2, "outcome noise depends on the instrument's strength", 1e-8, 1e-9)
        z7(u, "outcome noise")
        z7(u ** 2, "outcome noise variance", 1.0)
        z7(z, "instrument", 0.5)
        z7(u * (z - 0.5), "outcome noise and instrument")
        z7(d - norm.cdf(ax * z), "treatment probability")
        z7((d - norm.cdf(ax * z)) * z, "treatment probability and instrument")
        z7(u * (d - norm.cdf(ax * z)), "endogeneity", 0.3 * np.mean(norm.pdf(ax * z)))
    elif g == "pliv":
        pz = min(p, 1 + spec["dgp"] % 3)
        x, y, d, z = seeded(s, f, n_obs=n, alpha=v[0], dim_x=p, dim_z=pz, return_type="array")
        e, u, xi = y - v[0] * d - x @ b2, d - x @ b2 - z @ b2[:pz], z - x[:, :pz]
        for q, w, m in ((e, "outcome noise", 1.0), (u, "treatment noise", 1.0), (xi[:, -1], "instrument noise", 0.25)):
            z7(q, w)
            z7(q ** 2, w + " variance", m)
            z7(q * x[:, 0], w + " and covariates")
        z7(e * u, "endogeneity", 0.6)
        z7(e * xi[:, 0], "instrument and outcome noise")
    elif g == "cluster":
        N, M = 40, 30
        one = np.array([1.0, 0.0]) if spec["dgp"] % 2 else np.array([0.0, 1.0])
        part = ["omega_X", "omega_epsilon", "omega_v", "omega_V"][spec["p"]]
        arg = one.copy()
        th, pi10 = v[0], v[1]
        ze, xi, p2 = (np.array([(w + 1.0) / (k + 1) for k in range(p)]) for w in v[2:5])
        kw = {"zeta_0": ze.copy(), "xi_0": xi.copy(), "pi_20": p2.copy(), "pi_10": pi10, part: arg}
        x, y, d, c, z = seeded(s, f, N=N, M=M, dim_X=p, theta=th, return_type="array", **kw)
        same((kw["zeta_0"], kw["xi_0"], kw["pi_20"], arg), (ze, xi, p2, one), "arguments changed")
        V, w, e = z - x @ xi, d - pi10 * z - x @ p2, y - th * d - x @ ze
        got = {"omega_X": x[:, 0], "omega_epsilon": e, "omega_v": w, "omega_V": V}
        idx = c[:, 0] if one[0] else c[:, 1]
        for k, q in got.items():
            spread = max(np.ptp(q[idx == i]) for i in np.unique(idx))
            ensure((spread < 1e-7) == (k == part), f"{part} = {one}: {k} varies by {spread:.3g} within a cluster")
            ensure(np.std(q) > 0.05, f"{k} does not vary")
    elif g in ("did", "didcs"):
        dgp = spec["dgp"]
        cs = g == "didcs"
        out = seeded(s, f, n_obs=n, dgp_type=dgp, cross_sectional_data=cs, return_type="array", xi=0.75 if v[0] > 0 else 1.5)
        z, y, d = out[:3]
        t = out[3] if cs else None
        close(z.mean(axis=0), np.zeros(4), "standardised covariates", 0, 1e-8)
        close(z.std(axis=0), np.ones(4), "standardised covariates", 1e-8)
        x0, x1, x02, x13 = untransform(z)
        for q, w, vv in ((x0, "first", 1.0), (x1, "second", 1.0), (x02, "third", 1.0), (x13, "fourth", 2.0)):
            ensure(abs(np.mean(q)) < 0.25 and 0.7 * vv < np.var(q) < 1.4 * vv, f"inverse of the {w} transformed covariate has mean {np.mean(q):.3g} and variance {np.var(q):.3g}")
        ensure(abs(np.corrcoef(x0, x02)[0, 1]) < 0.3 and np.corrcoef(x1, x13)[0, 1] > 0.5, "dependence of the transformed covariates")
        if dgp in (5, 6):
            z7(d, "experimental treatment", 0.5)
        elif dgp in (1, 3):
            pr = sig((0.75 if v[0] > 0 else 1.5) * (-z[:, 0] + 0.5 * z[:, 1] - 0.25 * z[:, 2] - 0.1 * z[:, 3]))
            z7(d - pr, "treatment probability")
            for k in range(4):
                z7((d - pr) * z[:, k], "treatment probability and covariates")
        else:
            ensure(np.corrcoef(d, z[:, 0])[0, 1] < -0.1, "treatment does not depend on the covariates")
        if dgp in (1, 2, 5):
            reg = 210 + 27.4 * z[:, 0] + 13.7 * (z[:, 1] + z[:, 2] + z[:, 3])
            if not cs:
                r = y - reg
                z7(r, "outcome change")
                z7(r ** 2, "variance of the outcome change", 2.0)
                z7(r * d, "effect on the treated")
            else:
                r = y - (1 + t + d) * reg
                z7(r, "outcome")
                z7(r ** 2, "outcome noise variance", 2.0)
                z7(r * d * t, "effect on the treated")
        else:
            B = np.column_stack((np.ones(n), x0, x1, x13 - x1)) * ((1 + t + d)[:, None] if cs else 1.0)
            co = np.linalg.lstsq(B, y, rcond=None)[0]
            ensure(np.all(np.abs(co - [210, 27.4, 13.7, 13.7]) < [3, 3, 3, 3]), f"coefficients of the outcome on the original covariates: {co}")
        if cs:
            z7(t, "share of the second period", 0.5)
            t2 = seeded(s, f, n_obs=n, dgp_type=dgp, cross_sectional_data=True, lambda_t=0.8, return_type="array")[3]
            z7(t2, "share of the second period", 0.8)
            ensure(np.all(t2 >= t), "period is not monotone in its probability")
    else:
        mar = spec["dgp"] % 2 == 0
        x, y, d, z, sel = seeded(s, f, n_obs=n, dim_x=p, theta=v[0], mar=mar, return_type="array")
        xb = x @ (0.4 * b2)
        z7(d - norm.cdf(xb), "treatment probability")
        z7((d - norm.cdf(xb)) * x[:, 0], "treatment probability and covariates")
        ps = norm.cdf(xb + d + (0 if mar else 1) * z)
        for q, w in ((1, ""), (x[:, 0], " and covariates"), (z, " and instrument"), (d, " and treatment")):
            z7((sel - ps) * q, "selection probability" + w)
        # difference of outcomes of two effects was checked exactly; here the dependence between selection and outcome
        u = (y - v[0] * d)[sel == 1]
        A = np.column_stack((np.ones(len(u)), x[sel == 1], d[sel == 1], x[sel == 1] * d[sel == 1][:, None]))
        res = u - A @ np.linalg.lstsq(A, u, rcond=None)[0]
        if mar:
            z7(res ** 2 * len(u) / (len(u) - A.shape[1]), "outcome noise variance", 1.0)
            z7(res * z[sel == 1], "outcome noise and instrument")
        else:
            ensure(np.corrcoef(res, z[sel == 1])[0, 1] < -0.05, "no selection on unobservables")
    cx.label(g)
    cx.nontrivial()


@sub("oracle", st.fixed_dictionaries({"g": st.sampled_from(["cirm", "cplr", "het", "disc", "rdd"]), "n": st.integers(30, 300), "p": st.integers(0, 4), "lin": st.booleans(),
                                      "v": st.lists(st.sampled_from([0.0, 0.3, -0.7, 1.0]), min_size=4, max_size=4), "lev": st.integers(2, 6), "bin": st.booleans(),
                                      "s": gen.SEED}), quick=1800)
def oracle(spec, cx):
    """Generators that return the unobserved quantities."""
    g, n, p, v, s = (spec[k] for k in ("g", "n", "p", "v", "s"))
    before = np.geterr()
    if g == "cirm":
        call = lambda: seeded(s, ds.make_confounded_irm_data, n_obs=n, theta=v[0], gamma_a=v[1] / 4, beta_a=v[2], linear=spec["lin"], dim_x=5, var_eps_y=1 + abs(v[3]))  # noqa: E731
    elif g == "cplr":
        call = lambda: seeded(s, ds.make_confounded_plr_data, n_obs=n, theta=v[0] * 10, cf_y=0.02 + abs(v[1]) / 10, cf_d=0.02 + abs(v[2]) / 10, dim_x=4 + p)  # noqa: E731
    elif g == "het":
        call = lambda: seeded(s, ds.make_heterogeneous_data, n_obs=n, p=p + 2, support_size=min(p, 3), n_x=1 + spec["lin"], binary_treatment=spec["bin"])  # noqa: E731
    elif g == "disc":
        rs = s % 1000 if spec["bin"] else None
        call = lambda: seeded(s, ds.make_irm_data_discrete_treatments, n_obs=n, n_levels=spec["lev"], linear=spec["lin"], random_state=rs, xi=0.3 + v[0], dim_x=5 + p)  # noqa: E731
    else:
        fz = v[0] > 0
        call = lambda: seeded(s, make_simple_rdd_data, n_obs=n, p=p, fuzzy=fz, binary_outcome=spec["bin"], cutoff=v[1], dim_x=1 + spec["lev"], a=v[2], tau=v[3])  # noqa: E731
    R, again = call(), call()
    ensure(np.geterr() == before, "numpy error state changed")
    O = R.get("oracle_values")  # noqa: E741
    if g != "het":
        for k in R:
            if k != "oracle_values":
                same(R[k], again[k], f"same random state, other {k}")
        for k in O:
            same(O[k], again["oracle_values"][k], f"same random state, other {k}")

    def zs(x, last):
        t = np.column_stack([np.exp(0.5 * x[:, 0]), 10 + x[:, 1] / (1 + np.exp(x[:, 0])), (0.6 + x[:, 0] * x[:, 2] / 25) ** 3, (20 + x[:, 1] + x[:, 3]) ** 2, last])
        return (t - t.mean(axis=0)) / t.std(axis=0)
    if g == "cirm":
        x, y, d = R["x"], R["y"], R["d"]
        ensure(x.shape == (n, 5) and y.shape == (n,) and set(np.unique(d)) <= {0, 1}, "shapes")
        z = zs(x, x[:, 4:5])
        close(O["z"], z, "transformed covariates", 1e-6, 1e-7)
        w = x if spec["lin"] else z
        f = 0.75 * (-w[:, 0] + 0.1 * w[:, 1] - 0.25 * w[:, 2] - 0.1 * w[:, 3])
        ps = np.clip(1 / (1 + np.exp(-f)), 0, 1)
        ga, be = v[1] / 4, v[2]
        ensure(np.all(np.abs(O["a"]) <= 1), "confounder outside of [-1, 1]")
        cut = lambda q: np.clip(q, 0.01, 0.99)  # noqa: E731
        raw = ps + ga * O["a"]
        any_cut = np.any(raw < 0.01) or np.any(raw > 0.99)
        close(O["m_long"], cut(raw), "long propensity", 1e-7)
        close(O["m_short"], cut(ps) if any_cut else ps, "short propensity", 1e-7)
        gz = 2.5 + 0.74 * w[:, 0] + 0.25 * w[:, 1] + 0.137 * (w[:, 2] + w[:, 3])
        close(O["g_long"], v[0] * d * (z[:, 4] + 1) + gz + be * O["a"], "long regression", 1e-6, 1e-7)
        dx = d * (z[:, 4] + 1)
        close(O["g_short"], (v[0] + be * ga / 3 / np.var(dx)) * dx + gz, "short regression", 1e-6, 1e-7)
        close(y, d * O["y_1"] + (1 - d) * O["y_0"], "observed outcome", 1e-9, 1e-10)
        close(O["y_1"] - O["y_0"], v[0] * (z[:, 4] + 1), "individual effects", 1e-6, 1e-7)
        ensure((O["gamma_a"], O["beta_a"]) == (ga, be), "parameters")
        gd = O["g_long"] - O["g_short"]
        close(O["cf_y"], np.mean(gd ** 2) / np.mean((y - O["g_short"]) ** 2), "outcome confounding strength", 1e-7, 1e-12)
        ml, ms = O["m_long"], O["m_short"]
        q = lambda m: np.mean(1 / (m * (1 - m)))  # noqa: E731
        close(O["cf_d_ate"], (q(ml) - q(ms)) / q(ml), "treatment confounding strength", 1e-7, 1e-12)
        od = lambda m: np.mean(m / (1 - m))  # noqa: E731
        close(O["cf_d_atte"], (od(ml) - od(ms)) / od(ml), "treatment confounding strength (treated)", 1e-7, 1e-12)
        if ga != 0 and be != 0:
            rr = lambda m: d / m - (1 - d) / (1 - m)  # noqa: E731
            rt = lambda m: d / d.mean() - (1 - d) / d.mean() * m / (1 - m)  # noqa: E731
            close(O["rho_ate"], np.corrcoef(gd, rr(ml) - rr(ms))[0, 1], "degree of adversity", 1e-6, 1e-9)
            close(O["rho_atte"], np.corrcoef(gd, rt(ml) - rt(ms))[0, 1], "degree of adversity (treated)", 1e-6, 1e-9)
        else:
            ensure(O["rho_ate"] == 0 and O["rho_atte"] == 0, "degree of adversity without confounding")
    elif g == "cplr":
        x, y, d = R["x"], R["y"], R["d"]
        ensure(x.shape == (n, 4 + p) and y.shape == d.shape == (n,), "shapes")
        z = zs(x, x[:, 4:])
        close(O["z"], z, "transformed covariates", 1e-6, 1e-7)
        cy, cd = 0.02 + abs(v[1]) / 10, 0.02 + abs(v[2]) / 10
        ms = -z[:, 0] + 0.5 * z[:, 1] - 0.25 * z[:, 2] - 0.1 * z[:, 3]
        close(O["m_short"], ms, "short treatment regression", 1e-6, 1e-7)
        close(O["m_long"], ms + O["gamma_a"] * O["a"], "long treatment regression", 1e-6, 1e-7)
        th = v[0] * 10
        ensure(O["theta"] == th and np.all(np.abs(O["a"]) <= 1), "parameters")
        gz = 210 + 27.4 * z[:, 0] + 13.7 * (z[:, 1] + z[:, 2] + z[:, 3])
        close(O["g_long"], th * d + gz + O["beta_a"] * O["a"], "long regression", 1e-6, 1e-6)
        close(O["g_short"], (th + O["gamma_a"] * O["beta_a"] / 3 / np.var(d)) * d + gz, "short regression", 1e-6, 1e-6)
        e, u = d - O["m_long"], y - O["g_long"]
        z7(e, "treatment noise")
        z7(u, "outcome noise")
        # documented: the strengths are attained in the sample (up to the numerical search, if attainable)
        gd = O["g_long"] - O["g_short"]
        got = np.mean(gd ** 2) / np.mean((y - O["g_short"]) ** 2)
        ensure(abs(got - cy) < 0.01, f"outcome confounding strength {got:.4f} instead of {cy}")
        rl, rs = e, (O["gamma_a"] * O["a"] + e) / (O["gamma_a"] ** 2 / 3 + 1)
        got = 1 - np.mean(rs**2) / np.mean(rl**2)
        ensure(abs(got - cd) < 0.01, f"treatment confounding strength {got:.4f} instead of {cd}")
    elif g == "het":
        data = R["data"]
        same(data, again["data"], "same random state, other data")
        P = p + 2
        ensure(list(data.columns) == ["y", "d"] + [f"X_{i}" for i in range(P)] and len(data) == n, f"columns {list(data.columns)}")
        x, y, d = data.iloc[:, 2:].to_numpy(), data["y"].to_numpy(), data["d"].to_numpy()
        ensure(np.all((x >= 0) & (x <= 1)), "covariates outside of [0, 1]")
        te = np.exp(2 * x[:, 0]) + 3 * np.sin(4 * x[:, 1 if spec["lin"] else 0])
        close(R["effects"], te, "effects", 1e-9)
        close(R["treatment_effect"](x), te, "effect function", 1e-9)
        rest = y - te * d
        k = min(p, 3)
        ensure(np.all(rest >= -1 - 1e-9) and np.all(rest <= 1 + k + 1e-9), "outcome noise outside of its range")
        if spec["bin"]:
            ensure(set(np.unique(d)) <= {0, 1}, "treatment not binary")
        else:
            ensure(np.all(d >= -1 - 1e-9) and np.all(d <= 1 + 0.3 * k + 1e-9), "treatment outside of its range")
            ensure(len(np.unique(d)) == n, "continuous treatment with ties")
        if k == 0:
            z7(rest, "outcome noise")
            if not spec["bin"]:
                z7(d, "treatment noise")
        raises(AssertionError, lambda: ds.make_heterogeneous_data(n_x=3), "n_x=3")
        raises(AssertionError, lambda: ds.make_heterogeneous_data(p=3, support_size=4), "support larger than p")
        raises(AssertionError, lambda: ds.make_heterogeneous_data(binary_treatment=1), "binary_treatment=1")
    elif g == "disc":
        x, y, d, L = R["x"], R["y"], R["d"], spec["lev"]
        ensure(x.shape == (n, 5 + p) and y.shape == d.shape == (n,), "shapes")
        c = O["cont_d"]
        lb = np.quantile(c, np.linspace(0, 1, L + 1))
        close(O["level_bounds"], lb, "bounds of the levels", 1e-9)
        pot = 1 + sum((c >= b).astype(int) for b in lb[1:-1])
        same(np.asarray(O["potential_level"], dtype=float), pot.astype(float), "potential level")
        ensure(np.all((d == 0) | (d == pot)), "treatment is neither the baseline nor the potential level")
        cnt = np.bincount(pot, minlength=L + 1)[1:]
        ensure(cnt.max() - cnt.min() <= 2, f"levels are not equally likely: {cnt}")
        close(y - O["y0"], O["ite"] * (d > 0), "realised effect", 1e-6, 1e-9)
        if n >= 100:
            z7(d == 0, "share of the baseline", 1 / L)
        w = x if spec["lin"] else zs(x, x[:, 4:])
        z7(c - (0.3 + v[0]) * (-w[:, 0] + 0.5 * w[:, 1] - 0.25 * w[:, 2] - 0.1 * w[:, 3]), "treatment noise")
        z7(O["y0"] - 210 - 27.4 * w[:, 0] - 13.7 * (w[:, 1] + w[:, 2] + w[:, 3]), "outcome noise")
        if spec["bin"]:
            other = seeded(s + 1, ds.make_irm_data_discrete_treatments, n_obs=n, n_levels=L, linear=spec["lin"], random_state=rs, xi=0.3 + v[0], dim_x=5 + p)
            same(other["y"], y, "same random_state, other data")
            diff = seeded(s, ds.make_irm_data_discrete_treatments, n_obs=n, n_levels=L, random_state=rs + 1)
            ensure(not np.array_equal(diff["y"], y), "another random_state gives the same data")
        raises(ValueError, lambda: ds.make_irm_data_discrete_treatments(n_levels=1), "one level")
        raises(ValueError, lambda: ds.make_irm_data_discrete_treatments(n_levels=2.0), "float number of levels")
    else:
        x, y, d, sc = R["X"], R["Y"], R["D"], R["score"]
        q = 1 + spec["lev"]
        ensure(x.shape == (n, q) and y.shape == d.shape == sc.shape == (n,), "shapes")
        ensure(np.all(np.abs(x) <= 1) and set(np.unique(d)) <= {0, 1}, "ranges")
        T = (sc >= v[1]) * 1
        if not fz:
            same(np.asarray(d, dtype=float), T.astype(float), "treatment of a sharp design")
        close(y, np.where(d == 1, O["Y1"], O["Y0"]), "observed outcome", 1e-9)
        cov = np.zeros(n) if p == 0 else sum(sum((j) * x[:, i] ** j for j in range(p + 1)) for i in range(q))
        if spec["bin"]:
            ensure(set(np.unique(O["Y0"])) | set(np.unique(O["Y1"])) <= {0, 1}, "outcome not binary")
        else:
            for k, m in (("Y0", 0.1 * sc ** 2 + cov), ("Y1", v[3] - 0.4 * sc ** 2 + v[2] * x.sum(axis=1) * sc + cov)):
                e = (O[k] - m) / 0.2
                ensure(np.abs(e).max() < 6.5, f"{k} is {np.abs(e).max():.2f} noise standard deviations from its mean")
                z7(e, k + " noise")
                z7(e ** 2, k + " noise variance", 1.0)
        if fz and n >= 100:
            pr = np.clip(0.3 + 0.4 * T + 0.01 * sc ** 2 - 0.02 * sc ** 2 * T + 0.2 * cov, 0, 1)
            u = d - pr
            if np.std(u) > 0.05:
                z7(u, "treatment probability")
    cx.label(g)
    cx.nontrivial(n >= 10)


class patched:
    def __init__(self, name, frame):
        self.name, self.frame = name, frame

    def __enter__(self):
        self.old = getattr(pd, self.name)
        setattr(pd, self.name, lambda *a, **k: self.frame.copy())

    def __exit__(self, *a):
        setattr(pd, self.name, self.old)


@sub("fetch", st.fixed_dictionaries({"g": st.sampled_from(["401k", "bonus"]), "n": st.integers(30, 90), "a": st.integers(0, 50), "poly": st.booleans(), "s": gen.SEED}), quick=60)
def fetch(spec, cx):
    """The real data sets, with the download replaced by generated tables of the same columns."""
    rng = np.random.default_rng(spec["s"])
    n, a = spec["n"], spec["a"]
    if spec["g"] == "401k":
        xs = ["age", "inc", "educ", "fsize", "marr", "twoearn", "db", "pira", "hown"]
        raw = pd.DataFrame({c: rng.normal(size=n) for c in ["nifa", "net_tfa", "tw", "p401"] + xs})
        raw["e401"] = (rng.random(n) < 0.5) * 1.0
        with patched("read_stata", raw):
            D = ds.fetch_401K(return_type=DF[a % 3])
            M = ds.fetch_401K(return_type=DML[a % 2])
            ensure(type(ds.fetch_401K()) is dml.DoubleMLData, "default format")
            raises(NotImplementedError, lambda: ds.fetch_401K(polynomial_features=True), "polynomial features")
            raises(ValueError, lambda: ds.fetch_401K(return_type="array"), "arrays")
        same(D, raw, "table")
        ensure(M.y_col == "net_tfa" and M.d_cols == ["e401"] and list(M.x_cols) == xs and M.z_cols is None, "roles")
        close(M.x, raw[xs].to_numpy(), "covariates", 1e-12)
        close(M.d, raw["e401"], "treatment", 1e-12)
    else:
        base = ["female", "black", "othrace", "q1", "q2", "q3", "q4", "q5", "q6", "recall", "agelt35", "agegt54", "durable", "nondurable", "lusd", "husd", "muld"]
        raw = pd.DataFrame({c: (rng.random(n) < 0.5).astype(int) for c in base})
        raw["tg"] = rng.integers(0, 7, size=n)
        raw["dep"] = rng.integers(0, 3, size=n)
        raw["inuidur1"] = rng.integers(1, 53, size=n)
        raw["inuidur2"] = rng.integers(1, 53, size=n)
        keep = raw["tg"].isin([0, 4]).to_numpy()
        if len(set(raw["dep"][keep])) < 3 or len(set(raw["tg"][keep])) < 2:
            return
        xs = ["female", "black", "othrace", "dep1", "dep2", "q2", "q3", "q4", "q5", "q6", "agelt35", "agegt54", "durable", "lusd", "husd"]
        with patched("read_csv", raw):
            D = ds.fetch_bonus(return_type=DF[a % 3], polynomial_features=spec["poly"])
            M = ds.fetch_bonus(return_type=DML[a % 2], polynomial_features=spec["poly"])
            raises(ValueError, lambda: ds.fetch_bonus(return_type="array"), "arrays")
        sub_ = raw[keep].reset_index(drop=True)
        ensure(M.n_obs == keep.sum(), "number of observations")
        close(M.y, np.log(sub_["inuidur1"]), "outcome", 1e-9)
        close(M.d, (sub_["tg"] == 4) * 1.0, "treatment", 1e-12)
        want = sub_.assign(dep1=(sub_["dep"] == 1) * 1.0, dep2=(sub_["dep"] == 2) * 1.0)[xs].to_numpy(dtype=float)
        if spec["poly"]:
            want = np.column_stack([want] + [want[:, i] * want[:, j] for i in range(15) for j in range(i, 15)])
        close(M.x, want, "covariates", 1e-9)
        close(D[list(M.x_cols)].to_numpy(dtype=float), want, "covariates of the table", 1e-9)
        ensure(M.y_col == "inuidur1" and M.d_cols == ["tg"], "roles")
    cx.label(spec["g"])
    cx.nontrivial()
