"""C04: interactive regression and average potential outcomes."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Skip, close, sub

RULE = """A case is a generated data set with binary (IRM) or three-valued (APO) treatment, a score (ATE, ATTE, user-written), weights
(none, array, weights/expected-weights pair, group indicator), normalization on/off, a trimming threshold between 1e-12 and 0.45,
1-3 repetitions and 2-4 folds, with fitted or arbitrary (also out-of-range) nuisance values. Non-trivial: positive standard error
and, with weights, an estimate different from the unweighted one."""
ASSUMPTIONS = ["nuisance predictions are read from the fitted model (their correctness is C01)"]

KI = ("irm", "apo")


def _lab(c, m, cx):
    o = c.o
    cx.label(c.kind + ":" + str(o.get("score", "APO")), "w=" + o["w"], "norm" if o["norm"] else "raw", f"trim={o['trim']}")
    cx.nontrivial(bool(np.all(m.all_se > 0)))


@sub("fitted", gen.specs(kinds=KI), quick=1000)
def fitted(spec, cx):
    c = gen.Case(spec)
    m = c.make().fit()
    common.check_linear(c, m)
    common.agg_check(c, m)
    _lab(c, m, cx)


@sub("arbitrary_nuisances", common.with_flag(gen.specs(kinds=KI), s=gen.SEED), quick=1500)
def arbitrary(spec, cx):
    c = gen.Case(spec["c"])
    ext = common.external(c, seed=spec["s"])
    m = c.make()
    m.fit(external_predictions=ext)
    trim = c.o["trim"]
    P = common.check_linear(c, m)
    for (r, j), pr in P.items():
        for nm, v in pr.items():
            want = ext[c.dn[j]][nm][:, r]
            close(v, ref.clip(want, trim) if nm == "ml_m" else want, f"{nm} used")
    common.agg_check(c, m)
    _lab(c, m, cx)


NOW = gen.specs(kinds=KI, over={"w": st.just("none"), "score": st.just("ATE")})


@sub("constant_weights", common.with_flag(NOW, k=st.sampled_from([0.1, 0.5, 1.0, 2.0, 7.0])), quick=300)
def constant(spec, cx):
    """Unit weights are no weights; the weighted effect is linear in the weights."""
    c = gen.Case(spec["c"])
    m = c.make().fit()
    k = spec["k"]
    w = np.full(c.n, k)
    for arg in (w, {"weights": w, "weights_bar": np.full((c.n, c.r), k)}):
        m2 = c.make(weights=arg).fit()
        close(m2.all_coef, k * m.all_coef, "constant weights: estimate", 1e-8)
        if k == 1.0:
            close(m2.all_se, m.all_se, "unit weights change the standard error", 1e-8)
    cx.nontrivial(bool(np.all(m.all_se > 0)))


@sub("group_weights", common.with_flag(NOW, s=gen.SEED), quick=400)
def group(spec, cx):
    """0/1 weights: the estimate is the mean of the unweighted orthogonal signal over the group."""
    c = gen.Case(spec["c"])
    m = c.make().fit()
    rng = np.random.default_rng(spec["s"])
    G = rng.random(c.n) < rng.uniform(0.2, 0.8)
    if G.sum() < 3:
        G[:3] = True
    m2 = c.make(weights=G / np.mean(G)).fit()
    for r in range(c.r):
        sig = m.psi_elements["psi_b"][:, r, 0]
        th = np.mean(sig[G])
        close(m2.all_coef[0, r], th, "group estimate", 1e-8)
        psi = G * (sig - th) / np.mean(G)
        close(m2.all_se[0, r], np.sqrt(np.mean(psi**2) / c.n), "group standard error", 1e-7)
    cx.nontrivial(0 < G.sum() < c.n)


@sub("atte_is_weighted", gen.specs(kinds=("irm",), over={"w": st.just("none"), "score": st.just("ATTE")}), quick=250)
def atte(spec, cx):
    """The effect on the treated is the average effect with weights d / P(d) and expected weights m / P(d)."""
    c = gen.Case(spec)
    m = c.make().fit()
    d = c.D[:, 0]
    mm = m.predictions["ml_m"][:, :, 0]
    if c.o["norm"]:
        mm = np.column_stack([ref.normalized(mm[:, r], d) for r in range(c.r)])
    if np.any(mm < 0):
        raise Skip("normalized propensities are negative")
    W = {"weights": d / np.mean(d), "weights_bar": mm / np.mean(d)}
    m2 = c.make(score="ATE", weights=W).fit()
    close(m2.all_coef, m.all_coef, "ATTE", 1e-7)
    close(m2.all_se, m.all_se, "ATTE standard error", 1e-7)
    cx.nontrivial(bool(np.all(m.all_se > 0)))
