"""C15: sensitivity ingredients and benchmarks."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import doubleml as dml
from doubleml.utils.gain_statistics import gain_statistics

from .. import common, gen, ref
from ..core import Skip, close, ensure, raises, same, sub
from ..learners import Cls, Reg

RULE = """PLR (both scores, 1-3 treatments), IRM (ATE, ATTE, weights), APO, DID and DIDCS (all options) with fitted or arbitrary nuisance
values, including extreme propensities that make the raw second moment of the Riesz representer negative; benchmarks for every proper
non-empty subset of 1-4 covariates. Non-trivial: positive variances; for benchmarks at least one clipped-free gain statistic."""
ASSUMPTIONS = ["nuisance predictions are read from the fitted model (their correctness is C01)",
               "a non-positive second moment in one repetition replaces all repetitions of the treatment by the plug-in estimate"]

KI = ("plr", "plr", "irm", "irm", "apo", "did", "didcs")
OV = {"nt": st.sampled_from([1, 2, 3])}


def case(spec):
    sp = dict(spec, o=dict(spec["o"]))
    if str(sp["o"].get("score", "")).startswith("callable"):
        sp["o"]["score"] = "IV-type" if sp["o"]["score"] == "callable_g" else ("partialling out" if sp["kind"] == "plr" else "ATE")
    return gen.Case(sp)


def check_elements(c, m, cx):
    E = m.sensitivity_elements
    same(sorted(k for k in E if k != "riesz_rep"), ["nu2", "psi_nu2", "psi_sigma2", "sigma2"], "names of the elements")
    plug = False
    for j in range(c.nt):
        ref_r = [ref.sens(c, j, r, common.stored(c, m, r, j), m.all_coef[j, r]) for r in range(c.r)]
        neg = any(v[1] <= 0 for v in ref_r)
        near = any(abs(v[1]) < 1e-9 for v in ref_r)
        if near:
            raise Skip("second moment on the boundary")
        plug |= neg
        for r, (s2, nu2, ps, pn, rr) in enumerate(ref_r):
            w = f"{c.kind} rep {r} treatment {c.dn[j]}"
            close(E["sigma2"][0, r, j], s2, w + " sigma2", 1e-7, 1e-10)
            close(E["psi_sigma2"][:, r, j], ps, w + " psi_sigma2", 1e-7, 1e-9 * (1 + s2))
            if neg and c.kind != "plr":
                nu2 = np.mean(rr**2)
                pn = rr**2 - nu2
            close(E["nu2"][0, r, j], nu2, w + " nu2", 1e-7, 1e-10)
            close(E["psi_nu2"][:, r, j], pn, w + " psi_nu2", 1e-7, 1e-9 * (1 + np.max(np.abs(pn))))
            ensure(E["nu2"][0, r, j] > 0 and E["sigma2"][0, r, j] >= 0, w + ": negative variance element")
            ensure(abs(np.mean(E["psi_sigma2"][:, r, j])) < 1e-8 * (1 + np.max(np.abs(ps))), w + ": score of sigma2 is not centered")
            ensure(abs(np.mean(E["psi_nu2"][:, r, j])) < 1e-8 * (1 + np.max(np.abs(pn))), w + ": score of nu2 is not centered")
    # hand-over to the result object
    F = m.framework.sensitivity_elements
    close(F["sigma2"], np.transpose(E["sigma2"], (0, 2, 1)), "sigma2 of the result", 1e-12)
    close(F["nu2"], np.transpose(E["nu2"], (0, 2, 1)), "nu2 of the result", 1e-12)
    cx.label(c.kind + (":" + str(c.o.get("score")) if c.kind != "apo" else ""), f"p={c.nt}", f"r={c.r}", "plug-in" if plug else "")


@sub("fitted", gen.specs(kinds=KI, cluster=(0, 0, 0, 1), max_k=3, max_r=3, over=OV), quick=700)
def fitted(spec, cx):
    c = common.need_cells(case(spec))
    m = c.make().fit()
    check_elements(c, m, cx)
    cx.nontrivial(bool(np.all(m.sensitivity_elements["sigma2"] > 0)))


@sub("arbitrary_nuisances", common.with_flag(gen.specs(kinds=KI, max_k=3, max_r=3, over=OV), s=gen.SEED), quick=800)
def arbitrary(spec, cx):
    c = case(spec["c"])
    ext = common.external(c, seed=spec["s"])
    if c.kind in ("did", "didcs") and c.o["score"] == "experimental":
        ext = {d: {k: v for k, v in e.items() if k != "ml_m"} for d, e in ext.items()}
    m = c.make()
    m.fit(external_predictions=ext)
    check_elements(c, m, cx)
    cx.nontrivial(bool(np.all(m.sensitivity_elements["sigma2"] > 0)))


def gains(L, S, cl, cs):
    """Documented gain statistics; arrays (treatments, repetitions)."""
    s2l, nul = L
    s2s, nus = S
    cf_y = np.clip((s2s - s2l) / s2l, 0, 1)
    cf_d = np.clip((nul - nus) / nus, 0, 1)
    dt = cs - cl
    vg, vr = s2s - s2l, nul - nus
    with np.errstate(invalid="ignore", divide="ignore"):
        rho = np.where((vg > 0) & (vr > 0), np.minimum(1.0, np.abs(dt) / np.sqrt(np.maximum(vg * vr, 0))), 1.0) * np.sign(dt)
    md = lambda v: np.median(v, axis=1)  # noqa: E731
    return {"cf_y": md(cf_y), "cf_d": md(cf_d), "rho": md(rho), "delta_theta": md(dt)}, (vg, vr)


def snap(m):
    d = {"coef": m.coef, "se": m.se, "all_coef": m.all_coef, "psi": m.psi if hasattr(m, "psi") else 0, "smpls": m.smpls,
         "x": m._dml_data.x_cols, "data": m._dml_data.data, "E": m.sensitivity_elements}
    return copy.deepcopy(d)


def unchanged(a, m, what):
    b = snap(m)
    for k in ("coef", "se", "all_coef", "psi"):
        ensure(np.array_equal(a[k], b[k], equal_nan=True), f"{what}: {k} changed")
    same(a["x"], b["x"], what + ": covariates")
    pd.testing.assert_frame_equal(a["data"], b["data"])
    for p, q in zip(a["smpls"], b["smpls"]):
        for (s, t), (u, v) in zip(p, q):
            ensure(np.array_equal(s, u) and np.array_equal(t, v), what + ": splitting changed")
    for k in a["E"]:
        ensure(np.array_equal(a["E"][k], b["E"][k], equal_nan=True) if isinstance(a["E"][k], np.ndarray) else True, f"{what}: {k} changed")


@sub("benchmark", st.fixed_dictionaries({"c": gen.specs(kinds=KI, max_k=3, max_r=3, over=OV, cluster=(0, 0, 0, 1)).filter(lambda s: s["p"] > 1),
                                         "mask": st.integers(1, 14), "apos": st.booleans(), "args": st.booleans()}), quick=350)
def benchmark(spec, cx):
    c = common.need_cells(case(spec["c"]))
    drop = [x for i, x in enumerate(c.xn) if spec["mask"] >> i & 1] or [c.xn[0]]
    if len(drop) == c.p:
        drop = drop[:-1]
    keep = [x for x in c.xn if x not in drop]
    rng = np.random.default_rng(spec["mask"])
    drop = [str(v) for v in rng.permutation(drop)]
    apos = spec["apos"] and c.kind == "apo" and not c.cl
    if apos:
        lv = [0, 1, 2]

        def make(data):
            m = dml.DoubleMLAPOS(data, Reg(0.3), Cls(0.3), treatment_levels=lv, weights=c.weights_arg, n_folds=c.k, n_rep=c.r,
                                 draw_sample_splitting=False, normalize_ipw=c.o["norm"])
            m.set_sample_splitting(c.smpls)
            return m
    else:
        def make(data):
            return c.make(data=data)
    m = make(c.data())
    try:
        m.fit()
        short = make(c.data(x_cols=keep)).fit()
    except ValueError as e:
        if "sigma2 and nu2" in str(e):
            raise Skip("negative variance")
        raise
    before = snap(m)
    df = m.sensitivity_benchmark(drop, fit_args={"store_predictions": False} if spec["args"] else None)
    unchanged(before, m, "benchmark")
    T = lambda mm: tuple(np.array(mm.framework.sensitivity_elements[k])[0] for k in ("sigma2", "nu2"))  # noqa: E731
    want, (vg, vr) = gains(T(m), T(short), np.array(m.all_coef), np.array(short.all_coef))
    if np.any(np.abs(vg) < 1e-10) or np.any(np.abs(vr) < 1e-10) or np.any(np.abs(np.array(m.all_coef) - np.array(short.all_coef)) < 1e-10):
        raise Skip("gain on the boundary")
    same(sorted(df.columns), ["cf_d", "cf_y", "delta_theta", "rho"], "columns")
    same([str(v) for v in df.index], [str(v) for v in (lv if apos else c.dn)], "rows")
    direct = gain_statistics(dml_long=m, dml_short=short)
    for k, v in want.items():
        close(df[k], v, f"{c.kind} benchmark {k}", 1e-6, 1e-9)
        close(direct[k], v, f"{c.kind} gain statistics {k}", 1e-6, 1e-9)
    E = (ValueError, TypeError)
    raises(E, lambda: m.sensitivity_benchmark([]), "empty benchmarking set")
    raises(E, lambda: m.sensitivity_benchmark(["nope"]), "unknown covariate")
    raises(E, lambda: m.sensitivity_benchmark(drop[0]), "benchmarking set that is no list")
    unchanged(before, m, "refused benchmark")
    cx.label("apos" if apos else c.kind, f"dropped {len(drop)} of {c.p}", f"r={c.r}")
    cx.nontrivial(bool(np.any(vg > 0)) and bool(np.any(vr > 0)))


@sub("unavailable", gen.specs(kinds=("pliv", "iivm", "ssm", "pq", "lpq", "cvar"), max_k=3, max_r=2), quick=60)
def unavailable(spec, cx):
    c = gen.Case(spec)
    m = c.make().fit()
    raises((NotImplementedError, ValueError), lambda: m.sensitivity_benchmark([c.xn[0]]), "benchmark")
    raises((NotImplementedError, ValueError), lambda: m.sensitivity_analysis(), "sensitivity analysis")
    cx.label(c.kind)
    cx.nontrivial()
