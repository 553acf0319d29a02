"""C23: composite estimators equal the combination of their parts."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

import doubleml as dml

from .. import common, gen, ref
from ..core import Skip, close, ensure, raises, same, sub
from . import c07

RULE = """A case is a generated data set with a composite model (several potential-outcome levels in any order, quantile sets with one of
three scores, several treatments, average effect against two potential outcomes), options, weights and a supplied splitting; the composite
result is compared repetition by repetition with separately fitted parts and with differences of their scores. Non-trivial: at least two
parts with different estimates and positive standard errors."""
ASSUMPTIONS = ["learners treat both labels of a binary treatment symmetrically (average effect against two potential outcomes)",
               "outside the domain: quantile cases in which a part warns that its moment condition has no root"]


def scores(m, j=0):
    """Influence values of a single model: score divided by minus the mean derivative."""
    out = np.empty((m.psi.shape[0], m.psi.shape[1]))
    for r in range(out.shape[1]):
        out[:, r] = -m.psi[:, r, j] / np.mean(m.psi_deriv[:, r, j])
    return out


def combo(parts, signs):
    th = sum(s * np.asarray(p.all_coef)[0] for p, s in zip(parts, signs))
    ps = sum(s * scores(p) for p, s in zip(parts, signs))
    n = ps.shape[0]
    se = np.sqrt(np.mean(ps**2, axis=0) / n)
    return th, se, ps


def check_rows(f, th, se, n, what, rtol=1e-6):
    """f: object with all_thetas/all_ses or all_coef/all_se; th, se: (parameters, repetitions)."""
    at = getattr(f, "all_thetas", None)
    at = f.all_coef if at is None else at
    as_ = f.all_ses if hasattr(f, "all_ses") else f.all_se
    close(np.asarray(at), th, what + ": estimates of all repetitions", rtol, 1e-9)
    close(np.asarray(as_), se, what + ": standard errors of all repetitions", rtol, 1e-9)
    co, s = ref.aggregate(th, se, n)
    close(f.thetas if hasattr(f, "thetas") else f.coef, co, what + ": estimate", rtol, 1e-9)
    close(f.ses if hasattr(f, "ses") else f.se, s, what + ": standard error", rtol, 1e-9)
    return co, s


def check_inference(m, co, se, idx, what, level):
    ci = m.confint(level=level)
    same([x for x in ci.index], list(idx), what + ": rows of the interval")
    S = m.summary
    same([x for x in S.index], list(idx), what + ": rows of the summary")
    close(S["coef"], co, what + ": summary estimate", 1e-6, 1e-9)
    close(S["std err"], se, what + ": summary standard error", 1e-6, 1e-9)
    close(S["t"], co / se, what + ": summary t", 1e-6, 1e-9)
    close(m.t_stat, co / se, what + ": t", 1e-6, 1e-9)
    if m.n_rep == 1:
        z = norm.ppf(0.5 + level / 2)
        close(ci.iloc[:, 0], co - z * se, what + ": lower limit", 1e-6, 1e-8)
        close(ci.iloc[:, 1], co + z * se, what + ": upper limit", 1e-6, 1e-8)
        close(m.pval, 2 * norm.sf(np.abs(co / se)), what + ": p-value", 1e-5, 1e-9)


@sub("apos", st.fixed_dictionaries({"c": gen.specs(kinds=("apo",), max_k=3), "s": gen.SEED, "level": st.sampled_from([0.8, 0.95]), "refit": st.booleans()}), quick=350)
def apos(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    lv = [int(x) for x in rng.permutation(3)[: int(rng.integers(1, 4))]]
    arg = lv[0] if len(lv) == 1 and rng.random() < 0.5 else (list(lv) if rng.random() < 0.7 else np.array(lv))
    m = dml.DoubleMLAPOS(c.data(), c.learners["ml_g"], c.learners["ml_m"], treatment_levels=arg, weights=c.weights_arg, n_folds=c.k, n_rep=c.r,
                         draw_sample_splitting=False, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"])
    m.set_sample_splitting(c.smpls)
    raises(ValueError, lambda: m.causal_contrast(lv[0]), "contrast before fitting")
    m.fit()
    if spec["refit"]:
        m.fit()
    parts = {}
    for i in lv:
        ci = gen.Case(dict(spec["c"], o=dict(spec["c"]["o"], lev=i)))
        parts[i] = ci.make().fit()
    th = np.array([np.asarray(parts[i].all_coef)[0] for i in lv])
    se = np.array([np.asarray(parts[i].all_se)[0] for i in lv])
    co, s = check_rows(m, th, se, c.n, "levels")
    check_inference(m, co, s, lv, "levels", spec["level"])
    for i, (l, mm) in enumerate(zip(lv, m.modellist)):
        for nm in parts[l].predictions:
            close(mm.predictions[nm], parts[l].predictions[nm], f"level {l}: predictions {nm}")
        if m.sensitivity_elements is not None and parts[l].sensitivity_elements is not None:
            e, q = m.sensitivity_elements, parts[l].framework.sensitivity_elements
            for k in ("max_bias", "sigma2", "nu2"):
                close(np.asarray(e[k])[0, i], np.asarray(q[k])[0, 0], f"level {l}: {k}")
    if len(lv) == 1:
        raises(ValueError, lambda: m.causal_contrast(lv[0]), "contrast with one level")
        cx.label("one level")
        return cx.nontrivial(c.r > 1)
    raises(ValueError, lambda: m.causal_contrast(7), "unknown reference level")
    raises(ValueError, lambda: m.causal_contrast([lv[0], 9]), "unknown reference level in a list")
    k = int(rng.integers(1, len(lv)))
    rf = [lv[i] for i in rng.permutation(len(lv))[:k]]
    a = rf[0] if k == 1 and rng.random() < 0.5 else rf
    f = m.causal_contrast(a)
    pairs, done = [], set()
    for q in rf:
        done.add(q)
        pairs += [(i, q) for i in lv if i not in done]
    same(list(f.treatment_names), [f"{i} vs {q}" for i, q in pairs], "names of the contrasts")
    T, S = [], []
    for j, (i, q) in enumerate(pairs):
        t, e, ps = combo((parts[i], parts[q]), (1, -1))
        T.append(t)
        S.append(e)
        A, B = parts[i].sensitivity_elements, parts[q].sensitivity_elements
        E = f.sensitivity_elements
        if A is not None and E is not None:
            s2 = (A["sigma2"][0, :, 0] + B["sigma2"][0, :, 0]) / 2
            n2 = A["nu2"][0, :, 0] + B["nu2"][0, :, 0]
            if np.all(s2 > 0) and np.all(n2 > 0):
                mb = np.sqrt(s2 * n2)
                close(np.asarray(E["max_bias"])[0, j], mb, f"contrast {i} vs {q}: maximal bias")
                pb = (n2 * (A["psi_sigma2"][:, :, 0] + B["psi_sigma2"][:, :, 0]) / 2 + s2 * (A["psi_nu2"][:, :, 0] + B["psi_nu2"][:, :, 0])) / (2 * mb)
                close(np.asarray(E["psi_max_bias"])[:, j], pb, f"contrast {i} vs {q}: score of the maximal bias", 1e-6, 1e-9)
    co, s = check_rows(f, np.array(T), np.array(S), c.n, f"contrasts with reference {rf}")
    ci = f.confint(level=spec["level"])
    same(list(ci.index), [f"{i} vs {q}" for i, q in pairs], "rows of the contrast interval")
    if len(pairs) > 1:
        m2 = m.causal_contrast(rf[0])
        n1 = len(lv) - 1
        close(m2.all_thetas, np.array(T)[:n1], "contrasts computed again with one reference")
    # the original results are untouched
    close(np.asarray(m.all_coef), th, "levels after the contrasts")
    cx.label(f"levels {len(lv)}", f"references {len(rf)}", "weights" if c.weights_arg is not None else "no weights")
    cx.nontrivial(np.ptp(co) > 0 or c.r > 1)


@sub("qte", st.fixed_dictionaries({"c": gen.specs(kinds=("pq", "lpq", "cvar"), max_k=3, max_r=2), "s": gen.SEED, "level": st.sampled_from([0.8, 0.95])}), quick=160)
def qte(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    qs = [float(x) for x in rng.permutation([0.25, 0.4, 0.5, 0.6, 0.75])[: int(rng.integers(1, 4))]]
    kw = {"kde": gen.user_kde} if c.o.get("kde") else {}
    arg = qs[0] if len(qs) == 1 and rng.random() < 0.5 else (list(qs) if rng.random() < 0.5 else np.array(qs))
    m = dml.DoubleMLQTE(c.data(), c.learners["ml_g"], c.learners["ml_m"], quantiles=arg, score={"pq": "PQ", "lpq": "LPQ", "cvar": "CVaR"}[c.kind],
                        n_folds=c.k, n_rep=c.r, draw_sample_splitting=False, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"], **kw)
    m.set_sample_splitting(c.smpls)
    if c07.fit(m):
        raise Skip("no root")
    T, S = [], []
    for i, q in enumerate(qs):
        p = {}
        for t in (0, 1):
            ci = gen.Case(dict(spec["c"], o=dict(spec["c"]["o"], t=t, q=q)))
            p[t] = ci.make()
            if c07.fit(p[t]):
                raise Skip("no root")
            mm = (m.modellist_0, m.modellist_1)[t][i]
            for nm in p[t].predictions:
                close(mm.predictions[nm], p[t].predictions[nm], f"quantile {q} treatment {t}: predictions {nm}")
            close(mm.coef, p[t].coef, f"quantile {q} treatment {t}: estimate")
        t, e, ps = combo((p[1], p[0]), (1, -1))
        T.append(t)
        S.append(e)
    co, s = check_rows(m, np.array(T), np.array(S), c.n, f"quantile effects {qs}", 1e-6)
    check_inference(m, co, s, qs, "quantile effects", spec["level"])
    same([float(x) for x in m.quantiles], qs, "quantiles")
    pa = m.p_adjust(method="bonferroni")
    same([float(x) for x in pa.index], qs, "rows of adjusted p-values")
    cx.label(c.kind, f"quantiles {len(qs)}")
    cx.nontrivial(np.all(s > 0) and (np.ptp(co) > 0 or len(qs) == 1))


@sub("ate", st.fixed_dictionaries({"c": gen.specs(kinds=("irm",), max_k=4, over={"score": st.just("ATE"), "w": st.sampled_from(["none", "arr", "dict"])})}), quick=350)
def ate(spec, cx):
    """Average effect of the interactive model = contrast of the two potential outcomes."""
    c = gen.Case(spec["c"])
    m = c.make().fit()
    P = dml.DoubleMLAPOS(c.data(), c.learners["ml_g"], c.learners["ml_m"], treatment_levels=[1, 0], weights=c.weights_arg, n_folds=c.k, n_rep=c.r,
                         draw_sample_splitting=False, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"])
    P.set_sample_splitting(c.smpls)
    P.fit()
    f = P.causal_contrast(0)
    close(P.modellist[0].predictions["ml_g_d_lvl1"], m.predictions["ml_g1"], "outcome regression of the treated")
    close(P.modellist[1].predictions["ml_g_d_lvl1"], m.predictions["ml_g0"], "outcome regression of the untreated")
    check_rows(f, np.asarray(m.all_coef), np.asarray(m.all_se), c.n, "average effect", 1e-6)
    ps = f.scaled_psi[:, 0, :]
    q = scores(m)
    ensure(np.allclose(np.abs(ps), np.abs(q), rtol=1e-6, atol=1e-8), "scores of the contrast and of the interactive model")
    cx.label(c.o["w"], "norm" if c.o["norm"] else "raw")
    cx.nontrivial()


MULTI = st.one_of(
    gen.specs(kinds=("plr",), cluster=(0, 0, 0, 1, 2), max_k=3, max_r=2, over={"nt": st.sampled_from([2, 2, 3]), "other": st.just(True)}),
    gen.specs(kinds=("plr",), max_k=3, max_r=3, over={"nt": st.just(2), "other": st.just(False)}),
    gen.specs(kinds=("pliv",), max_k=3, max_r=2, over={"nt": st.just(2), "var": st.sampled_from(["x", "x_iv", "x_call", "xm", "xm3", "z", "xz"]), "other": st.booleans()}))


@sub("treatments", st.fixed_dictionaries({"c": MULTI, "par": st.booleans()}), quick=350)
def treatments(spec, cx):
    """Several treatments = separate models with the other treatments as covariates."""
    c = gen.Case(spec["c"])
    m = c.make()
    rng = np.random.default_rng(spec["c"]["seed"])
    par = {nm: {d: float(rng.choice([0.05, 0.7, 5.0])) for d in c.dn} for nm in c.nuis_names()}
    if spec["par"]:
        for nm in par:
            for d in c.dn:
                m.set_ml_nuisance_params(nm, d, {"alpha": par[nm][d]})
    m.fit()
    for j, d in enumerate(c.dn):
        xs = list(c.xn) + ([q for q in c.dn if q != d] if c.o["other"] else [])
        a = {"d_cols": d, "x_cols": xs}
        data = c.data(**a)
        q = c.make(data=data)
        if spec["par"]:
            for nm in par:
                q.set_ml_nuisance_params(nm, d, {"alpha": par[nm][d]})
        q.fit()
        w = f"{c.kind} treatment {d}"
        for nm in c.nuis_names():
            close(m.predictions[nm][:, :, j], q.predictions[nm][:, :, 0], f"{w}: predictions {nm}", 1e-7, 1e-9)
        close(m.all_coef[j], q.all_coef[0], w + ": estimates", 1e-7, 1e-9)
        close(m.all_se[j], q.all_se[0], w + ": standard errors", 1e-7, 1e-10)
        close(m.coef[j], q.coef[0], w + ": estimate", 1e-7, 1e-9)
        close(m.se[j], q.se[0], w + ": standard error", 1e-7, 1e-10)
        close(m.psi[:, :, j], q.psi[:, :, 0], w + ": scores", 1e-6, 1e-8)
        for nm in c.nuis_names():
            close(m.nuisance_loss[nm][:, j], q.nuisance_loss[nm][:, 0], f"{w}: loss {nm}", 1e-7, 1e-9)
        A, B = m.sensitivity_elements, q.sensitivity_elements
        if A is not None and B is not None:
            for k in A:
                if A[k] is not None:
                    close(np.asarray(A[k])[:, :, j], np.asarray(B[k])[:, :, 0], f"{w}: sensitivity element {k}", 1e-6, 1e-8)
    cx.label(c.kind, f"treatments {c.nt}", f"cl={c.cl}", "others in x" if c.o["other"] else "others ignored")
    cx.nontrivial(np.all(np.isfinite(m.se)))
