"""C21: best linear predictors, conditional and group effects."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import norm
from scipy.stats import t as tdist

import doubleml as dml
from doubleml.utils.blp import DoubleMLBLP

from .. import common, gen, ref
from ..core import Fail, Skip, close, ensure, raises, same, sub

RULE = """A case is a signal and basis (continuous, polynomial with ties, dummies, partly degenerate groups; ordinary or shuffled row labels), covariance
type and level, given directly or through a fitted PLR / IRM / potential-outcome model with a generated data set, or one group layout in
three encodings. Coefficients, covariance, summary and intervals are compared with an own least-squares computation. Non-trivial: the
basis has at least two columns, the signal is not constant and the standard errors are positive."""
ASSUMPTIONS = ["bases have full column rank", "joint critical values are random: compared with a simulated reference up to sampling error",
               "small-sample factors of HC1-HC3 and cluster covariances as documented by statsmodels"]


def fit_ref(y, X, cov, groups=None):
    y, X = np.asarray(y, float), np.asarray(X, float)
    n, k = X.shape
    A = np.linalg.inv(X.T @ X)
    b = A @ X.T @ y
    e = y - X @ b
    h = np.einsum("ij,jk,ik->i", X, A, X)
    if cov == "nonrobust":
        V = A * (e @ e) / (n - k)
    elif cov == "cluster":
        g = np.unique(groups)
        S = np.zeros((k, k))
        for v in g:
            s = X[groups == v].T @ e[groups == v]
            S += np.outer(s, s)
        V = A @ S @ A * (len(g) / (len(g) - 1)) * ((n - 1) / (n - k))
    else:
        w = {"HC0": e**2, "HC1": e**2 * n / (n - k), "HC2": e**2 / (1 - h), "HC3": e**2 / (1 - h) ** 2}[cov]
        V = A @ ((X * w[:, None]).T @ X) @ A
    return b, V, (n - k)


def names(level):
    a = 1 - level
    return ["{:.1f} %".format(a / 2 * 100), "effect", "{:.1f} %".format((1 - a / 2) * 100)]


def check_model(blp, y, X, cov, level, cx, what, groups=None, is_gate=False, newX=None, orig_names=None, seed=0, n_boot=None):
    """Coefficients, covariance, summary, pointwise intervals of a fitted predictor."""
    b, V, df = fit_ref(y, X, cov, groups)
    sc = np.sqrt(np.diag(V))
    if not np.all(sc > 1e-9 * (np.abs(b) + 1e-6)) or np.linalg.cond(np.asarray(X, float).T @ np.asarray(X, float)) > 1e9:
        raise Skip("degenerate projection")
    close(blp.blp_model.params, b, what + ": coefficients", 1e-6, 1e-8 * max(1, np.abs(b).max()))
    close(blp.blp_omega, V, what + f": {cov} covariance", 1e-5, 1e-8 * np.abs(V).max())
    S = blp.summary
    dist = tdist(df) if cov == "nonrobust" else norm
    close(S["coef"], b, what + ": summary coef", 1e-6, 1e-8 * max(1, np.abs(b).max()))
    close(S["std err"], sc, what + ": summary std err", 1e-5, 1e-12)
    close(S["t"], b / sc, what + ": summary t", 1e-5, 1e-6)
    close(S["P>|t|"], 2 * dist.sf(np.abs(b / sc)), what + ": summary p-value", 1e-4, 1e-7)
    close(S["[0.025"], b - dist.ppf(0.975) * sc, what + ": summary lower limit", 1e-5, 1e-6)
    close(S["0.975]"], b + dist.ppf(0.975) * sc, what + ": summary upper limit", 1e-5, 1e-6)
    z = norm.ppf(1 - (1 - level) / 2)
    # limits for the coefficients / groups
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ci = blp.confint(level=level)
    same(list(ci.columns), names(level), what + ": names of the limits")
    if orig_names is not None:
        same([str(i) for i in ci.index], [str(i) for i in orig_names], what + ": row names of the interval")
    close(ci["effect"], b, what + ": interval centre", 1e-6, 1e-8 * max(1, np.abs(b).max()))
    lo, hi = ci.iloc[:, 0].to_numpy(), ci.iloc[:, 2].to_numpy()
    ok = np.allclose(lo, b - z * sc, rtol=1e-5, atol=1e-6 * sc.max()) and np.allclose(hi, b + z * sc, rtol=1e-5, atol=1e-6 * sc.max())
    if not ok and not is_gate:
        q = dist.ppf(1 - (1 - level) / 2)
        ok = np.allclose(lo, b - q * sc, rtol=1e-5, atol=1e-6 * sc.max()) and np.allclose(hi, b + q * sc, rtol=1e-5, atol=1e-6 * sc.max())
        q2 = dist.ppf(1 - (1 - level) / 4)
        if not ok and np.allclose(lo, b - q2 * sc, rtol=1e-5, atol=1e-6 * sc.max()) and np.allclose(hi, b + q2 * sc, rtol=1e-5, atol=1e-6 * sc.max()):
            cx.known_finding("C21-coef-level", "confint() of basis coefficients uses the quantile of level 1 - alpha/2")
            ok = True
    ensure(ok, f"{what}: pointwise interval at level {level}: {lo}, {hi}, expected {b - z * sc}, {b + z * sc}")
    # predictions on a new basis
    if newX is not None:
        g = newX.to_numpy(dtype=float) @ b
        se = np.sqrt(np.einsum("ij,jk,ik->i", newX.to_numpy(dtype=float), V, newX.to_numpy(dtype=float)))
        keep = newX.copy()
        ci = blp.confint(basis=newX, level=level)
        same(list(ci.index), list(newX.index), what + ": rows of the interval")
        same(list(ci.columns), names(level), what + ": names of the limits (new basis)")
        tol = 1e-6 * max(1, np.abs(g).max(), se.max())
        close(ci.iloc[:, 1], g, what + ": prediction for the new basis", 1e-5, tol)
        close(ci.iloc[:, 0], g - z * se, what + ": lower limit for the new basis", 1e-5, tol)
        close(ci.iloc[:, 2], g + z * se, what + ": upper limit for the new basis", 1e-5, tol)
        ensure(newX.equals(keep), what + ": the new basis was modified")
    if n_boot:
        joint(blp, b, V, level, cx, what, is_gate, newX, seed, n_boot)
    return b, V


def joint(blp, b, V, level, cx, what, is_gate, newX, seed, B):
    sets = []
    if is_gate:
        sets.append((None, np.eye(len(b))))
    if newX is not None:
        sets.append((newX, newX.to_numpy(dtype=float)))
    rng = np.random.default_rng(seed)
    for basis, M in sets:
        g, se = M @ b, np.sqrt(np.einsum("ij,jk,ik->i", M, V, M))
        if not np.all(se > 1e-7 * se.max()):
            continue
        np.random.seed(seed % 2**31)
        pw = blp.confint(basis=basis, level=level)
        np.random.seed(seed % 2**31)
        ci = blp.confint(basis=basis, joint=True, level=level, n_rep_boot=B)
        np.random.seed(seed % 2**31)
        ci2 = blp.confint(basis=basis, joint=True, level=level, n_rep_boot=B)
        ensure(ci.equals(ci2), what + ": joint interval with the same seed")
        same(list(ci.columns), names(level), what + ": names of the joint limits")
        lo, mid, hi = (ci.iloc[:, i].to_numpy() for i in range(3))
        close(mid, g, what + ": joint interval centre", 1e-5, 1e-6 * max(1, np.abs(g).max()))
        cu, cl = (hi - g) / se, (g - lo) / se
        close(cu, cl, what + ": symmetry of the joint interval", 1e-3, 1e-3)
        ensure(np.ptp(cu) < 1e-3 * abs(cu[0]) + 1e-3, what + ": the joint interval uses different critical values")
        c = float(cu.mean())
        z = norm.ppf(1 - (1 - level) / 2)
        sd = np.sqrt(level * (1 - level) / B) / (2 * norm.pdf(z))
        ensure(c > z - 6 * sd - 0.02, f"{what}: joint interval at level {level} is narrower (critical value {c:.3f}) than the pointwise one ({z:.3f})")
        R = M @ V @ M.T / np.outer(se, se)
        w, U = np.linalg.eigh(R)
        Z = rng.normal(size=(20000, len(w))) @ (U * np.sqrt(np.maximum(w, 0))).T
        mx = np.abs(Z).max(axis=1)
        exp = np.quantile(mx, level)
        d = 0.02
        dens = (np.quantile(mx, min(level + d, 0.999)) - np.quantile(mx, level - d)) / (min(level + d, 0.999) - level + d)
        tol = 7 * np.sqrt(level * (1 - level) / B) * dens + 0.05
        if abs(c - exp) > tol:
            # maximum over the bootstrap draws of each row (instead of over the rows of each draw)
            e1, e2 = norm.ppf(1 - 0.5 * (1 - 0.0005 ** (1 / B))), norm.ppf(1 - 0.5 * 1e-6 / B)
            if e1 - 0.05 <= c <= e2:
                cx.known_finding("C21-joint-max", "the joint critical value is a quantile over rows of the maximum over bootstrap draws")
            else:
                raise Fail(f"{what}: joint critical value {c:.3f} at level {level}, reference {exp:.3f}")
        np.random.seed(seed % 2**31)
        wide = blp.confint(basis=basis, joint=True, level=min(0.995, level + 0.04), n_rep_boot=B)
        ensure(np.all(wide.iloc[:, 0] <= lo + 1e-9 * se) and np.all(wide.iloc[:, 2] >= hi - 1e-9 * se), what + ": joint interval of a higher level is narrower")
        ensure(np.all(pw.iloc[:, 0] <= pw.iloc[:, 1]) and np.all(pw.iloc[:, 1] <= pw.iloc[:, 2]), what + ": interval without the estimate")


COV = st.sampled_from(["HC0", "HC0", "HC0", "HC1", "HC2", "HC3", "nonrobust", "cluster"])
LEVEL = st.sampled_from([0.5, 0.68, 0.8, 0.9, 0.95, 0.99])


def draw_basis(rng, n, how, k):
    if how == "cont":
        B = pd.DataFrame(rng.normal(size=(n, k)), columns=[f"b{i}" for i in range(k)])
        if rng.random() < 0.6:
            B.insert(0, "const", 1.0)
    elif how == "poly":
        x = np.round(rng.uniform(-1, 1, n), 1)
        B = pd.DataFrame({f"x^{i}": x**i for i in range(k + 1)})
    elif how == "int":
        B = pd.DataFrame(rng.integers(-3, 4, (n, k)), columns=[f"i{i}" for i in range(k)])
        B["one"] = 1
    else:
        g = rng.permutation(np.resize(np.arange(k + 1), n))
        B = pd.DataFrame({f"G{i}": g == i for i in range(k + 1)})
    u = rng.random()
    if u < 0.15:
        B.index = rng.permutation(n) + 5
    elif u < 0.25:
        B.index = [f"r{i}" for i in range(n)]
    return B


def fit_kw(rng, n, cov):
    if cov == "cluster":
        g = rng.permutation(np.resize(np.arange(n // 3), n))
        return {"cov_type": "cluster", "cov_kwds": {"groups": g}}, g
    if cov == "HC0" and rng.random() < 0.5:
        return {}, None
    return {"cov_type": cov}, None


def new_basis(rng, B, how):
    k = B.shape[1]
    m = int(rng.integers(1, 6))
    if how == "dummy":
        M = np.eye(k)[rng.integers(0, k, m)].astype(bool)
    else:
        M = np.round(rng.normal(size=(m, k)), 2)
        if rng.random() < 0.3:
            return B.iloc[rng.permutation(len(B))[:m]].astype(float)
    return pd.DataFrame(M, columns=B.columns, index=rng.permutation(m) + 10)


@sub("direct", st.fixed_dictionaries({"s": gen.SEED, "n": st.integers(15, 60), "k": st.integers(1, 4), "how": st.sampled_from(["cont", "poly", "int", "dummy"]),
                                      "cov": COV, "level": LEVEL, "gate": st.booleans(), "boot": st.booleans()}), quick=900)
def direct(spec, cx):
    rng = np.random.default_rng(spec["s"])
    n = spec["n"]
    B = draw_basis(rng, n, spec["how"], spec["k"])
    y = np.round(rng.normal(size=n) * np.exp(rng.normal()) + rng.normal() * 3, 3) + B.iloc[:, 0].to_numpy(dtype=float) * rng.normal()
    gate = spec["gate"] and spec["how"] == "dummy"
    yk, Bk = y.copy(), B.copy()
    blp = DoubleMLBLP(y, B, is_gate=gate)
    same(blp.summary.shape[0], 0, "rows of the summary before fitting")
    raises(ValueError, lambda: blp.confint(), "interval before fitting")
    kw, g = fit_kw(rng, n, spec["cov"])
    ensure(blp.fit(**kw) is blp, "fit returns another object")
    nb = new_basis(rng, B, spec["how"]) if rng.random() < 0.8 else None
    boot = 1500 if spec["boot"] and spec["level"] <= 0.95 else None
    b, V = check_model(blp, y, B.to_numpy(dtype=float), spec["cov"], spec["level"], cx, f"{spec['how']} basis", g, gate, nb, list(B.columns), spec["s"], boot)
    if spec["how"] == "dummy":
        means = [y[B.iloc[:, i].to_numpy()].mean() for i in range(B.shape[1])]
        close(b, means, "own group means")
        close(blp.blp_model.params, means, "group effects and group means", 1e-6, 1e-8 * np.abs(y).max())
    ensure(np.array_equal(y, yk) and B.equals(Bk) and (B.dtypes == Bk.dtypes).all(), "signal or basis modified")
    cx.label(spec["how"], spec["cov"], "gate" if gate else "blp")
    cx.nontrivial(B.shape[1] > 1 and np.ptp(y) > 0)


def model_spec():
    return st.one_of(gen.specs(kinds=("irm", "apo"), max_r=1, max_k=3, over={"score": st.just("ATE")}),
                     gen.specs(kinds=("plr",), max_r=1, max_k=3, over={"score": st.sampled_from(["partialling out", "IV-type"]), "nt": st.just(1)}))


def signal(c, m):
    """Projection problem of the documented effect: (signal, factor multiplying the basis)."""
    P = {nm: m.predictions[nm][:, 0, 0] for nm in c.nuis_names()}
    d = c.D[:, 0]
    if c.kind == "plr":
        v = d - P["ml_m"]
        if c.o["score"] == "IV-type":
            return c.Y - m.coef[0] * P["ml_m"] - P["ml_g"], v
        return c.Y - P["ml_l"], v
    a, b = ref.score(c, 0, 0, P, c.smpls[0])
    return b, np.ones(c.n)


@sub("models", st.fixed_dictionaries({"c": model_spec(), "s": gen.SEED, "how": st.sampled_from(["cont", "poly", "int", "dummy"]), "cov": COV, "level": LEVEL}),
     quick=500)
def models(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    m.fit()
    y, f = signal(c, m)
    B = draw_basis(rng, c.n, spec["how"], int(rng.integers(1, 4)))
    if c.kind == "plr":
        B.index = range(c.n)
    kw, g = fit_kw(rng, c.n, spec["cov"])
    keep = B.copy()
    th, psi = m.all_coef.copy(), m.psi.copy()
    blp = m.cate(B, **kw) if c.kind != "apo" else m.capo(B, **kw)
    check_model(blp, y, B.to_numpy(dtype=float) * f[:, None], spec["cov"], spec["level"], cx, f"{c.kind} effect on a {spec['how']} basis", g, False,
                new_basis(rng, B, spec["how"]), list(B.columns))
    ensure(B.equals(keep), "the basis was modified")
    # with a constant only, the projection returns the estimate itself (potential-outcome type models without weights; PLR partialling out)
    one = pd.DataFrame({"one": np.ones(c.n)})
    q = (m.cate(one) if c.kind != "apo" else m.capo(one)).blp_model
    if c.kind == "plr" and c.o["score"] == "partialling out" or c.kind != "plr":
        close(q.params.iloc[0], m.coef[0], f"{c.kind}: projection on a constant and the coefficient", 1e-6, 1e-9)
    if c.kind != "plr" and c.weights_arg is None or c.kind == "plr" and c.o["score"] == "partialling out":
        close(q.bse.iloc[0], m.se[0], f"{c.kind}: projection on a constant and the standard error", 1e-6, 1e-9)
    ensure(np.array_equal(th, m.all_coef) and np.array_equal(psi, m.psi), "the model was changed")
    cx.label(c.kind, spec["how"], spec["cov"])
    cx.nontrivial(B.shape[1] > 1)


@sub("groups", st.fixed_dictionaries({"c": model_spec(), "s": gen.SEED, "k": st.integers(2, 5), "level": LEVEL, "boot": st.sampled_from([0, 0, 0, 1])}), quick=400)
def groups(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    m.fit()
    y, f = signal(c, m)
    k = spec["k"]
    lab = rng.permutation(np.resize(np.arange(k), c.n))
    if rng.random() < 0.4:  # unbalanced
        lab = np.where(rng.random(c.n) < 0.5, 0, lab)
        k = len(np.unique(lab))
        lab = np.searchsorted(np.unique(lab), lab)
        if k < 2 or np.bincount(lab).min() < 3:
            raise Skip("group without observations")
    names_ = [f"{chr(97 + i)}{i}" for i in range(k)]
    fn = m.gate if c.kind != "apo" else m.gapo
    res = {}
    G = {"bool": pd.DataFrame({nm: lab == i for i, nm in enumerate(names_)}),
         "int": pd.DataFrame({nm: (lab == i).astype(int) for i, nm in enumerate(names_)}),
         "str": pd.DataFrame({"Gr": [names_[i] for i in lab]}),
         "cat": pd.DataFrame({"Gr": pd.Categorical([names_[i] for i in lab])})}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for how, g in G.items():
            keep = g.copy()
            blp = fn(g)
            ensure(g.equals(keep) and (g.dtypes == keep.dtypes).all(), f"the groups given as {how} were modified")
            rows = names_ if how in ("bool", "int") else [f"Group_{q}" for q in names_]
            nb = None
            X = (lab[:, None] == np.arange(k)).astype(float)
            boot = 1500 if spec["boot"] and how == "bool" and spec["level"] <= 0.95 else None
            check_model(blp, y, X * f[:, None], "HC0", spec["level"], cx, f"{c.kind} group effects ({how})", None, True, nb, rows, spec["s"], boot)
            res[how] = (np.array(blp.blp_model.params), np.array(blp.blp_omega), blp.confint(level=spec["level"]).to_numpy())
    for i in range(k):
        s = lab == i
        e = np.sum(f[s] * y[s]) / np.sum(f[s] ** 2)
        close(res["bool"][0][i], e, f"{c.kind}: effect of group {i}", 1e-6, 1e-8)
        r = (y[s] - e * f[s]) * f[s]
        close(res["bool"][1][i, i], np.sum(r**2) / np.sum(f[s] ** 2) ** 2, f"{c.kind}: variance of group {i}", 1e-6, 1e-12)
    for how in G:
        for a, b in zip(res["bool"], res[how]):
            close(b, a, f"{c.kind}: groups as booleans and as {how}", 1e-7, 1e-9)
    cx.label(c.kind, f"k={k}")
    cx.nontrivial(k > 1)


@sub("refused", st.fixed_dictionaries({"c": gen.specs(kinds=("irm", "apo", "plr"), max_r=2, max_k=2, over={"score": st.sampled_from(["ATE", "ATTE"])}), "s": gen.SEED,
                                       "b": st.integers(0, 7)}), quick=100)
def refused(spec, cx):
    sp = dict(spec["c"])
    if sp["kind"] == "plr":
        sp["o"] = dict(sp["o"], score="partialling out")
    c = gen.Case(sp)
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    m.fit()
    B = draw_basis(rng, c.n, "cont", 2)
    B.index = range(c.n)
    eff = m.cate if c.kind != "apo" else m.capo
    grp = m.gate if c.kind != "apo" else m.gapo
    G = pd.DataFrame({"a": np.arange(c.n) % 2 == 0, "b": np.arange(c.n) % 2 == 1})
    E = (ValueError, TypeError, NotImplementedError)
    if c.r > 1:
        raises(E, lambda: eff(B), "several repetitions")
        raises(E, lambda: grp(G), "several repetitions (groups)")
        cx.label("repetitions")
        return cx.nontrivial()
    if c.kind == "plr" and c.nt > 1 or c.kind == "irm" and c.o["score"] == "ATTE":
        raises(E, lambda: eff(B), "several treatments or another score")
        cx.label("treatments/score")
        return cx.nontrivial()
    blp = eff(B)
    ref_ = blp.confint(basis=B, level=0.9)
    b = spec["b"]
    rev = B[list(B.columns[::-1])]
    bad = [lambda: grp(G.to_numpy()), lambda: grp(G.astype(float)), lambda: eff(B.to_numpy()),
           lambda: blp.confint(basis=rev), lambda: blp.confint(basis=B.iloc[:, :1] if B.shape[1] > 1 else B.assign(q=1.0)),
           lambda: blp.confint(level=[1, "0.9", 0.0, 1.0, -0.1, 1.5][int(rng.integers(6))]),
           lambda: blp.confint(joint=[1, "yes", None][int(rng.integers(3))]),
           lambda: blp.confint(joint=True, n_rep_boot=[0, -3, 2.5, "a"][int(rng.integers(4))])][b]
    raises(E + ((AttributeError,) if b == 2 else ()), bad, f"invalid request {b}")
    ensure(blp.confint(basis=B, level=0.9).equals(ref_), "results after a refused request")
    cx.label(f"request {b}")
    cx.nontrivial()
