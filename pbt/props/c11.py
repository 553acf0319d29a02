"""C11: multiplier bootstrap and joint intervals."""
import numpy as np
from hypothesis import strategies as st

import doubleml as dml
from doubleml.double_ml_framework import DoubleMLFramework

from .. import common, fw, gen
from ..core import Skip, close, ensure, raises, same, sub
from ..learners import Cls, Reg

RULE = """Result objects with 1-5 parameters and 1-5 repetitions (any scores, also sums, differences, multiples of results), fitted models
and composites; all three multiplier methods; 1-200 draws. To see the multipliers themselves, a result object with one additional
parameter per observation (score = indicator of this observation) is bootstrapped: its statistics are the multipliers.
Non-trivial: more than one parameter or repetition."""
ASSUMPTIONS = ["multiplier distributions as documented: Bayes Exp(1)-1, normal N(0,1), wild x/sqrt(2) + (y^2-1)/2 with independent normal x, y",
               "distribution test: Kolmogorov-Smirnov statistic against a large sample, false alarm probability below 1e-9 per case"]
METHOD = st.sampled_from(["normal", "Bayes", "wild"])


def sample(method, size):
    rng = np.random.default_rng(12345)
    if method == "normal":
        return np.sort(rng.standard_normal(size))
    if method == "Bayes":
        return np.sort(rng.exponential(1.0, size) - 1.0)
    return np.sort(rng.standard_normal(size) / np.sqrt(2) + (rng.standard_normal(size) ** 2 - 1) / 2)


REFS = {}


def ks(w, method):
    if method not in REFS:
        REFS[method] = sample(method, 200_000)
    a, b = np.sort(np.ravel(w)), REFS[method]
    allv = np.concatenate((a, b))
    d = np.max(np.abs(np.searchsorted(a, allv, side="right") / len(a) - np.searchsorted(b, allv, side="right") / len(b)))
    return d * np.sqrt(len(a) * len(b) / (len(a) + len(b)))


@sub("multipliers", st.fixed_dictionaries({"f": fw.specs(cluster=(0,), sens=(0,), max_n=40), "m": METHOD, "b": st.integers(20, 120),
                                           "rs": gen.SEED}), quick=500)
def multipliers(spec, cx):
    M = fw.model(spec["f"])
    n, p, r = M.psi.shape
    # parameters 0..n-1: score = indicator of one observation (any scale), then the generated ones
    E = np.repeat((np.eye(n) * 3.0)[:, :, None], r, axis=2)
    th = np.concatenate((np.ones((n, r)), M.th))
    F = fw.Model(th, np.concatenate((E, M.psi), axis=1), np.full(n + p, float(n)))
    f = F.build()
    np.random.seed(spec["rs"] % 2**32)
    f.bootstrap(method=spec["m"], n_rep_boot=spec["b"])
    B = np.array(f.boot_t_stat)
    same(B.shape, (spec["b"], n + p, r), "shape of the bootstrap statistics")
    same((f.n_rep_boot, f.boot_method), (spec["b"], spec["m"]), "recorded settings")
    W = []
    for i in range(r):
        w = B[:, :n, i] * (n * F.all_se[:n, i]) / 3.0  # draws x observations
        W.append(w)
        want = w @ (M.psi[:, :, i] / (n * F.all_se[n:, i]))
        close(B[:, n:, i], want, f"bootstrap statistics of repetition {i} against the multipliers", 1e-7, 1e-8)
    W = np.stack(W)
    for i in range(r):
        for k in range(i):
            ensure(not np.allclose(W[i], W[k]), "two repetitions use the same multipliers")
    ensure(not np.any(np.all(np.isclose(W[:, 0], W[:, -1]), axis=1)), "two draws use the same multipliers")
    ensure(not np.allclose(W[0][:, 0], W[0][:, -1]), "two observations have the same multipliers")
    d = ks(W, spec["m"])
    ensure(d < 3.4, f"multipliers do not follow the {spec['m']} distribution: scaled Kolmogorov-Smirnov distance {d:.2f}")
    if W.size >= 2000:
        x = np.ravel(W)
        for nm, v in (("mean", x), ("variance", x**2 - 1)):
            z = np.mean(v) / (np.std(v) / np.sqrt(len(v)))
            ensure(abs(z) < 9, f"{nm} of the multipliers is off by {z:.1f} standard errors")
        y = W[:, :, :-1] * W[:, :, 1:]
        z = np.mean(y) / (np.std(y) / np.sqrt(y.size))
        ensure(abs(z) < 9, f"multipliers of neighbouring observations are correlated ({z:.1f} standard errors)")
    np.random.seed(spec["rs"] % 2**32)
    f.bootstrap(method=spec["m"], n_rep_boot=spec["b"])
    same(np.array_equal(f.boot_t_stat, B), True, "bootstrap under the same random state")
    cx.label(spec["m"], f"p={p}", f"r={r}")
    cx.nontrivial(p > 1 or r > 1)


def joint(o, th, ses, B, levels, what, index=None):
    prev = None
    for lv in sorted(levels):
        crit = np.quantile(np.max(np.abs(B), axis=1), lv, axis=0)
        ci = o.confint(joint=True, level=lv)
        lo, hi = np.median(th - crit * ses, axis=1), np.median(th + crit * ses, axis=1)
        at = 1e-9 * float(np.max(np.abs(th)) + np.max(ses))
        close(ci.iloc[:, 0], lo, f"{what} lower end at level {lv}", 1e-6, at)
        close(ci.iloc[:, 1], hi, f"{what} upper end at level {lv}", 1e-6, at)
        same(list(ci.columns), [f"{100 * (1 - lv) / 2:.1f} %", f"{100 * (1 + lv) / 2:.1f} %"], f"{what} column names")
        if index is not None:
            same([str(v) for v in ci.index], [str(v) for v in index], f"{what} row names")
        if prev is not None:
            ensure(np.all(ci.iloc[:, 0] <= prev.iloc[:, 0] + at) and np.all(ci.iloc[:, 1] >= prev.iloc[:, 1] - at), f"{what}: not nested")
        prev = ci


LEVELS = st.lists(st.one_of(st.sampled_from([0.9, 0.95, 0.99]), st.floats(0.02, 0.995)), min_size=1, max_size=3)
OPS = st.sampled_from(["", "neg", "times", "plus", "minus", "cat"])


@sub("joint_intervals", st.fixed_dictionaries({"f": fw.specs(cluster=(0,)), "m": METHOD, "b": st.integers(1, 200), "rs": gen.SEED,
                                               "lv": LEVELS, "op": OPS}), quick=900)
def joint_intervals(spec, cx):
    M, M2 = fw.model(spec["f"]), fw.model(spec["f"], 1)
    f, g = M.build(), M2.build()
    op = spec["op"]
    if op == "neg":
        f, M = f * -1, M.times(-1)
    elif op == "times":
        f, M = 2.5 * f, M.times(2.5)
    elif op == "plus":
        f, M = f + g, M.plus(M2)
    elif op == "minus":
        f, M = f - g, M.plus(M2, -1)
    elif op == "cat":
        f, M = dml.concat([f, g]), M.cat(M2)
    raises(ValueError, lambda: f.confint(joint=True), "joint interval without bootstrap")
    np.random.seed(spec["rs"] % 2**32)
    res = f.bootstrap(method=spec["m"], n_rep_boot=spec["b"])
    ensure(res is f, "bootstrap returns the object")
    joint(f, M.th, M.all_se, np.array(f.boot_t_stat), spec["lv"], f"joint interval {op}")
    # a second bootstrap replaces the first
    f.bootstrap(method="normal", n_rep_boot=spec["b"] + 1)
    same(f.boot_t_stat.shape[0], spec["b"] + 1, "second bootstrap")
    joint(f, M.th, M.all_se, np.array(f.boot_t_stat), spec["lv"][:1], "joint interval after a second bootstrap")
    cx.label(op or "plain", f"p={M.th.shape[0]}", f"r={M.th.shape[1]}")
    cx.nontrivial(M.th.size > 1)


@sub("clustered_refused", st.fixed_dictionaries({"f": fw.specs(cluster=(1, 2)), "m": METHOD}), quick=60)
def clustered(spec, cx):
    f = fw.model(spec["f"]).build()
    raises(NotImplementedError, lambda: f.bootstrap(method=spec["m"]), "bootstrap with clusters")
    raises(ValueError, lambda: f.confint(joint=True), "joint interval without bootstrap")
    cx.nontrivial()


@sub("models", st.fixed_dictionaries({
    "c": gen.specs(kinds=gen.KINDS + ("plr",) * 5 + ("pliv",), max_k=3, max_r=3, over={"w": st.sampled_from(["none", "arr"]),
                                                                                       "nt": st.sampled_from([1, 2, 2, 3])}),
    "m": METHOD, "b": st.integers(1, 120), "rs": gen.SEED, "lv": LEVELS, "wrap": st.booleans()}), quick=450)
def models(spec, cx):
    c = gen.Case(spec["c"])
    names = c.dn
    kw = dict(n_folds=c.k, n_rep=c.r, draw_sample_splitting=False)
    wrap = spec["wrap"] and c.kind in ("apo", "pq", "lpq", "cvar")
    if wrap and c.kind == "apo":
        names = [0, 2, 1]
        m = dml.DoubleMLAPOS(c.data(), Reg(0.3), Cls(0.3), treatment_levels=names, weights=c.weights_arg, **kw)
    elif wrap:
        names = [0.4, 0.6]
        m = dml.DoubleMLQTE(c.data(), Reg(0.3) if c.kind == "cvar" else Cls(0.3), Cls(0.3), quantiles=names,
                            score={"pq": "PQ", "lpq": "LPQ", "cvar": "CVaR"}[c.kind], **kw)
    else:
        m = c.make()
    if wrap:
        m.set_sample_splitting(c.smpls)
    raises((ValueError, AttributeError, TypeError), lambda: m.bootstrap(), "bootstrap before fit")
    m.fit()
    A, S = np.asarray(m.all_coef), np.asarray(m.all_se)
    if not np.all(S > 0) or not np.all(np.isfinite(S)):
        raise Skip("degenerate")
    raises(ValueError, lambda: m.confint(joint=True), "joint interval without bootstrap")
    psi = np.array(m.framework.scaled_psi)
    F = DoubleMLFramework({"thetas": m.coef, "ses": m.se, "all_thetas": A, "all_ses": S, "scaled_psi": psi,
                           "var_scaling_factors": np.full(len(names), float(c.n))})
    np.random.seed(spec["rs"] % 2**32)
    F.bootstrap(method=spec["m"], n_rep_boot=spec["b"])
    np.random.seed(spec["rs"] % 2**32)
    ensure(m.bootstrap(method=spec["m"], n_rep_boot=spec["b"]) is m, "bootstrap returns the model")
    B = np.array(m.boot_t_stat)
    same(B.shape, (spec["b"], len(names), c.r), "shape of the bootstrap statistics")
    close(B, F.boot_t_stat, "bootstrap of the model and of its result", 1e-7, 1e-9)
    joint(m, A, S, B, spec["lv"], f"{c.kind} joint interval", names)
    if not wrap:
        same((m.boot_method, m.n_rep_boot), (spec["m"], spec["b"]), "recorded settings")
    m.fit()
    raises(ValueError, lambda: m.confint(joint=True), "joint interval after a refit without bootstrap")
    cx.label(c.kind + (" composite" if wrap else ""), spec["m"], f"p={len(names)}", f"r={c.r}")
    cx.nontrivial(A.size > 1)


_ = common
