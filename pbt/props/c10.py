"""C10: aggregation, tests and pointwise intervals."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import norm

import doubleml as dml
from doubleml.double_ml_framework import DoubleMLFramework

from .. import common, fw, gen, ref
from ..core import Skip, close, ensure, same, sub
from ..learners import Cls, Reg

RULE = """Result objects with 1-5 parameters, 1-5 repetitions, independent or clustered observations, estimates of any magnitude and
significance, built from arrays or obtained from fitted models of every class (also APOS and QTE); levels in (0.01, 0.999).
Non-trivial: repetition estimates differ so that median aggregation matters, or several parameters."""
ASSUMPTIONS = ["results and composites: p-value of the aggregate is the median of the repetition p-values (Definition 4.2 of the cited paper); "
               "single models: p-value of the reported t-statistic"]
LEVEL = st.one_of(st.sampled_from([0.9, 0.95, 0.99, 0.5]), st.floats(0.01, 0.999))


def check_inference(o, th, se, names, levels, what, fwk, medp=True):
    """o: model or framework; th, se: (parameters, repetitions) and the aggregate."""
    all_th, all_se = th
    co, s = se
    same(np.shape(o.thetas if fwk else o.coef), co.shape, what + " shape of the estimate")
    t = co / s
    p = np.median(2 * norm.sf(np.abs(all_th / all_se)), axis=1) if medp else 2 * norm.sf(np.abs(t))
    close(o.t_stats if fwk else o.t_stat, t, what + " t-statistics", 1e-6)
    close(o.pvals if fwk else o.pval, p, what + " p-values", 1e-6, 1e-12)
    prev = None
    for lv in sorted(levels):
        ci = o.confint(level=lv)
        q = norm.ppf(0.5 + lv / 2)
        lo, hi = np.median(all_th - q * all_se, axis=1), np.median(all_th + q * all_se, axis=1)
        at = 1e-9 * float(np.max(np.abs(all_th)))
        close(ci.iloc[:, 0], lo, f"{what} lower end at level {lv}", 1e-6, at)
        close(ci.iloc[:, 1], hi, f"{what} upper end at level {lv}", 1e-6, at)
        ensure(np.all(lo <= co + at) and np.all(co <= hi + at), f"{what}: interval does not contain the estimate")
        same(list(ci.columns), [f"{100 * (1 - lv) / 2:.1f} %", f"{100 * (1 + lv) / 2:.1f} %"], f"{what} column names")
        if names is not None:
            same([str(v) for v in ci.index], [str(v) for v in names], what + " row names")
        if prev is not None:
            ensure(np.all(ci.iloc[:, 0] <= prev.iloc[:, 0] + at) and np.all(ci.iloc[:, 1] >= prev.iloc[:, 1] - at), f"{what}: intervals not nested")
        prev = ci
    d = o.confint()
    q = norm.ppf(0.975)
    close(d.values, np.column_stack((np.median(all_th - q * all_se, axis=1), np.median(all_th + q * all_se, axis=1))), what + " default level",
          1e-6, 1e-9 * float(np.max(np.abs(all_th))))
    S = o.summary
    ensure(isinstance(S, pd.DataFrame), what + " summary")
    same(list(S.columns), ["coef", "std err", "t", "P>|t|", "2.5 %", "97.5 %"], what + " summary columns")
    close(S.values[:, :4], np.column_stack((co, s, t, p)), what + " summary", 1e-6, 1e-12)
    close(S.values[:, 4:], d.values, what + " summary interval", 1e-9)
    if names is not None:
        same([str(v) for v in S.index], [str(v) for v in names], what + " summary row names")


@sub("framework", st.fixed_dictionaries({"f": fw.specs(), "lv": st.lists(LEVEL, min_size=1, max_size=3), "other": gen.SEED}), quick=1500)
def framework(spec, cx):
    M = fw.model(spec["f"])
    f = M.build()
    co, se = M.agg
    check_inference(f, (M.th, M.all_se), (co, se), M.names, spec["lv"], "framework", True)
    close(f.all_t_stats, M.th / M.all_se, "repetition t-statistics", 1e-7)
    close(f.all_pvals, 2 * norm.sf(np.abs(M.th / M.all_se)), "repetition p-values", 1e-6, 1e-12)
    # aggregation of arbitrary repetition values: the sum with a null result is computed by the package
    Z = fw.Model(np.zeros_like(M.th), np.zeros_like(M.psi), M.scale, M.cl, ses=np.zeros_like(M.th))
    g = f + DoubleMLFramework(Z.dict())
    close(g.thetas, co, "aggregated estimate", 1e-7, 1e-12 * spec["f"]["mag"])
    close(g.ses, se, "aggregated standard error", 1e-7)
    # renamed parameters
    nm = [f"n{i}" for i in range(f.n_thetas)]
    f.treatment_names = nm
    same(list(f.summary.index), nm, "row names after renaming")
    same(list(f.confint().index), nm, "row names of the interval after renaming")
    cx.label(f"p={f.n_thetas}", f"r={f.n_rep}", f"clusters={spec['f']['cl']}")
    cx.nontrivial(f.n_rep > 1)


@sub("models", common.with_flag(gen.specs(kinds=gen.KINDS + ("plr",) * 3, cluster=(0, 0, 1), max_k=3, max_r=4), lv=st.lists(LEVEL, min_size=1, max_size=2)), quick=700)
def models(spec, cx):
    sp = dict(spec["c"])
    if sp["kind"] in ("pq", "lpq", "cvar"):
        sp["cl"] = 0
    c = common.need_cells(gen.Case(sp))
    m = c.make().fit()
    scale = c.n
    if c.cl:
        scale = min(len(np.unique(c.C[:, j])) for j in range(c.cl))
    A, S = np.asarray(m.all_coef), np.asarray(m.all_se)
    if not np.all(S > 0) or not np.all(np.isfinite(S)):
        raise Skip("degenerate")
    co, se = ref.aggregate(A, S, float(scale))
    at = 1e-9 * float(np.max(np.abs(A)))
    close(m.coef, co, "coefficient", 1e-7, at)
    close(m.se, se, "standard error", 1e-7)
    same(A.shape, (c.nt, c.r), "shape")
    check_inference(m, (A, S), (co, se), c.dn, spec["lv"], f"{c.kind} model", False, medp=False)
    close(m.framework.all_thetas, A, "framework repetition estimates", 1e-12)
    close(m.framework.all_ses, S, "framework repetition standard errors", 1e-12)
    check_inference(m.framework, (A, S), (co, se), c.dn, spec["lv"], f"{c.kind} framework", True)
    d = np.mean(m.psi_deriv, axis=0)
    if not c.cl:
        close(m.framework.scaled_psi, np.transpose(m.psi / d[None], (0, 2, 1)), "scores of the framework", 1e-7, 1e-9)
    cx.label(c.kind, f"r={c.r}", f"p={c.nt}", f"clusters={c.cl}")
    cx.nontrivial(c.r > 1 or c.nt > 1)


@sub("composites", st.fixed_dictionaries({
    "c": gen.specs(kinds=("apo", "pq", "lpq", "cvar"), max_k=3, max_r=3, over={"w": st.sampled_from(["none", "arr"])}),
    "lv": st.lists(LEVEL, min_size=1, max_size=2), "sel": st.integers(0, 5)}), quick=250)
def composites(spec, cx):
    c = gen.Case(spec["c"])
    kw = dict(n_folds=c.k, n_rep=c.r, draw_sample_splitting=False, trimming_threshold=c.o["trim"], normalize_ipw=c.o["norm"])
    if c.kind == "apo":
        lv = [[0], [0, 1], [2, 0, 1], [1, 2], [2], [1, 0]][spec["sel"]]
        m = dml.DoubleMLAPOS(c.data(), Reg(0.3), Cls(0.3), treatment_levels=lv, weights=c.weights_arg, **kw)
        names = lv
    else:
        names = [[0.5], [0.4, 0.6], [0.3, 0.5, 0.7], [0.25], [0.6, 0.4], [0.5, 0.75]][spec["sel"]]
        m = dml.DoubleMLQTE(c.data(), Reg(0.3) if c.kind == "cvar" else Cls(0.3), Cls(0.3), quantiles=names,
                            score={"pq": "PQ", "lpq": "LPQ", "cvar": "CVaR"}[c.kind], **kw)
    m.set_sample_splitting(c.smpls)
    m.fit()
    A, S = np.asarray(m.all_coef), np.asarray(m.all_se)
    if not np.all(S > 0) or not np.all(np.isfinite(S)):
        raise Skip("degenerate")
    co, se = ref.aggregate(A, S, float(c.n))
    close(m.coef, co, "coefficient", 1e-7, 1e-10)
    close(m.se, se, "standard error", 1e-7)
    same(A.shape, (len(names), c.r), "shape")
    check_inference(m, (A, S), (co, se), names, spec["lv"], f"{c.kind} composite", False)
    check_inference(m.framework, (A, S), (co, se), m.framework.treatment_names, spec["lv"], f"{c.kind} composite framework", True)
    cx.label(c.kind, f"r={c.r}", f"p={len(names)}")
    cx.nontrivial(c.r > 1 or len(names) > 1)
