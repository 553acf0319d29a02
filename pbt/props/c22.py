"""C22: policy trees."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from doubleml.utils.policytree import DoubleMLPolicyTree

from .. import gen, ref
from ..core import Fail, Skip, close, ensure, raises, same, sub

RULE = """A case is a signal (continuous, heavy tailed, with exact zeros and ties, one-signed) and a feature table (continuous, coarse, binary, constant
columns) with depth, leaf size, pruning and further tree parameters, or a fitted interactive model. Leaves are recomputed from the
training data; for depth one all splits are enumerated. Non-trivial: the tree splits and both decisions occur or the signal has both signs."""
ASSUMPTIONS = ["observations with a zero signal carry no weight", "ties between equally good splits may be broken either way"]


def draw_signal(rng, n, how):
    if how == "cont":
        return rng.normal(size=n) + rng.normal() * 0.5
    if how == "heavy":
        return rng.standard_t(1.5, size=n)
    if how == "ties":
        return rng.choice([-2.0, -1.0, 0.0, 1.0, 2.0], n)
    if how == "zeros":
        return np.where(rng.random(n) < 0.3, 0.0, rng.normal(size=n))
    return np.abs(rng.normal(size=n)) * (1 if rng.random() < 0.5 else -1) + 0.0


def draw_features(rng, n, p):
    cols = {}
    for i in range(p):
        u = rng.integers(5)
        if u == 0:
            v = np.round(rng.normal(size=n), 2)
        elif u == 1:
            v = rng.integers(0, 4, n)
        elif u == 2:
            v = rng.integers(0, 2, n).astype(float)
        elif u == 3:
            v = np.round(rng.uniform(-10, 10, n), 1)
        else:
            v = np.round(np.arange(n) / n, 2)
        cols[f"f{i}"] = v
    df = pd.DataFrame(cols)
    if rng.random() < 0.3:
        df.index = rng.permutation(n) + 3
    return df


def tree_checks(t, S, F, depth, msl, what):
    tree = t.policy_tree
    keep = F.copy()
    out = t.predict(F)
    ensure(list(out.columns) == list(F.columns) + ["pred_treatment"], f"{what}: columns of the prediction {list(out.columns)}")
    ensure(out[list(F.columns)].equals(F) and out.index.equals(F.index) and F.equals(keep), f"{what}: features returned with the prediction")
    pi = out["pred_treatment"].to_numpy()
    ensure(np.issubdtype(pi.dtype, np.integer) and np.isin(pi, (0, 1)).all(), f"{what}: predictions {np.unique(pi)}")
    leaf = tree.apply(F.to_numpy(dtype=np.float32)) if False else tree.apply(F)
    scale = np.abs(S).sum() + 1e-300
    for q in np.unique(leaf):
        ii = leaf == q
        tot = S[ii].sum()
        ensure(len(np.unique(pi[ii])) == 1, f"{what}: one leaf with two decisions")
        if abs(tot) > 1e-10 * scale:
            same(int(pi[ii][0]), int(tot > 0), f"{what}: decision of a leaf with total signal {tot:.6g}")
        if len(np.unique(leaf)) > 1:
            ensure(ii.sum() >= msl, f"{what}: leaf with {ii.sum()} observations, minimum {msl}")
    ensure(tree.get_depth() <= depth, f"{what}: depth {tree.get_depth()} instead of at most {depth}")
    v = float(S @ pi)
    ensure(v >= max(0.0, S.sum()) - 1e-9 * scale, f"{what}: value {v:.6g} below that of the best constant policy {max(0.0, S.sum()):.6g}")
    return pi, leaf


def gini(S):
    w = np.abs(S)
    W = w.sum()
    if W == 0:
        return 0.0
    p = w[S > 0].sum() / W
    return 2 * W * p * (1 - p)


def best_split(S, F, msl):
    """Smallest summed impurity of one split (weights of zero ignored), all features and thresholds."""
    pos = S != 0
    s, f = S[pos], F.to_numpy(dtype=np.float32).astype(float)[pos]
    best = gini(s)
    for j in range(f.shape[1]):
        o = np.argsort(f[:, j], kind="stable")
        x, z = f[o, j], s[o]
        for i in range(msl, len(z) - msl + 1):
            if i < len(z) and x[i] > x[i - 1] + 1e-7:
                best = min(best, gini(z[:i]) + gini(z[i:]))
    return best


@sub("direct", st.fixed_dictionaries({"s": gen.SEED, "n": st.integers(10, 70), "p": st.integers(1, 4), "how": st.sampled_from(["cont", "heavy", "ties", "zeros", "one"]),
                                      "depth": st.integers(1, 5), "msl": st.sampled_from([None, 1, 2, 3, 5, 8, 12]), "ccp": st.sampled_from([None, 0.0, 0.0, 0.02, 0.1]),
                                      "pow": st.integers(-6, 6), "plot": st.sampled_from([0, 0, 0, 0, 1])}), quick=2500)
def direct(spec, cx):
    rng = np.random.default_rng(spec["s"])
    n = spec["n"]
    S = draw_signal(rng, n, spec["how"])
    if not np.any(S):
        raise Skip("no signal at all")
    F = draw_features(rng, n, spec["p"])
    Sk, Fk = S.copy(), F.copy()
    kw = {"random_state": 7}
    if spec["msl"] is not None:
        kw["min_samples_leaf"] = spec["msl"]
    if spec["ccp"] is not None:
        kw["ccp_alpha"] = spec["ccp"]
    msl = 8 if spec["msl"] is None else spec["msl"]
    t = DoubleMLPolicyTree(S, F, depth=spec["depth"], **kw)
    raises(Exception, lambda: t.predict(F), "prediction before fitting")
    raises(Exception, lambda: t.plot_tree(), "plot before fitting")
    ensure(t.fit() is t, "fit returns another object")
    par = t.policy_tree.get_params()
    same((par["ccp_alpha"], par["min_samples_leaf"], par["max_depth"], par["random_state"]),
         (0.01 if spec["ccp"] is None else spec["ccp"], msl, spec["depth"], 7), "parameters of the tree")
    same(list(t.summary["Decision Variables"]), list(F.columns), "decision variables in the summary")
    pi, leaf = tree_checks(t, S, F, spec["depth"], msl, f"{spec['how']} signal")
    # positive rescaling
    t2 = DoubleMLPolicyTree(S * 2.0 ** spec["pow"], F, depth=spec["depth"], **kw).fit()
    same(t2.predict(F)["pred_treatment"].to_numpy(), pi, "decisions after rescaling the signal")
    # new data by name
    G = F.iloc[rng.permutation(n)[: max(1, n // 3)]]
    same(t.predict(G)["pred_treatment"].to_numpy(), pi[[F.index.get_loc(i) for i in G.index]], "decisions for rows given again")
    if spec["p"] > 1:
        G = F[list(F.columns[::-1])]
        try:
            q = t.predict(G)["pred_treatment"].to_numpy()
        except ValueError:
            pass
        else:
            same(q, pi, "decisions with the columns in another order")
    if spec["depth"] == 1 and par["ccp_alpha"] == 0.0:
        got = sum(gini(S[leaf == q]) for q in np.unique(leaf))
        exp = best_split(S, F, msl)
        ensure(got <= exp + 1e-7 * (1e-12 + np.abs(S).sum()), f"impurity {got:.8g} of the chosen split, best split {exp:.8g}")
        cx.label("best split")
    if spec["plot"]:
        try:
            art = t.plot_tree()
            tx = [a.get_text() for a in art]
            used = [str(x) for x in F.columns]
            for a in tx:
                if "<=" in a:
                    ensure(a.split(" <=")[0] in used, f"plotted split on {a!r}")
            leaves = [a for a in tx if "class =" in a and "<=" not in a]
            n_treat = sum("class = Treatment" in a for a in leaves)
            exp = sum(int(pi[leaf == q][0]) for q in np.unique(leaf))
            if len(leaves) == len(np.unique(leaf)):
                same(n_treat, exp, "plotted leaves with treatment")
        finally:
            plt.close("all")
        cx.label("plot")
    ensure(np.array_equal(S, Sk) and F.equals(Fk), "signal or features modified")
    cx.label(spec["how"], f"leaves {min(len(np.unique(leaf)), 4)}")
    cx.nontrivial(len(np.unique(leaf)) > 1)


@sub("irm", st.fixed_dictionaries({"c": gen.specs(kinds=("irm",), max_r=2, max_k=3, over={"score": st.sampled_from(["ATE", "ATE", "ATE", "ATE", "ATTE"])}), "s": gen.SEED,
                                   "depth": st.sampled_from([None, 1, 2, 3]), "msl": st.sampled_from([None, 1, 4])}), quick=250)
def irm(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    m.fit()
    F = draw_features(rng, c.n, int(rng.integers(1, 4)))
    kw = {"random_state": 3}
    if spec["depth"]:
        kw["depth"] = spec["depth"]
    if spec["msl"]:
        kw["min_samples_leaf"] = spec["msl"]
    if c.r > 1:
        raises((NotImplementedError, ValueError), lambda: m.policy_tree(F, **kw), "several repetitions")
        cx.label("refused")
        return cx.nontrivial()
    if c.o["score"] == "ATTE":
        raises(ValueError, lambda: m.policy_tree(F, **kw), "effect on the treated")
        cx.label("refused")
        return cx.nontrivial()
    P = {nm: m.predictions[nm][:, 0, 0] for nm in c.nuis_names()}
    a, b = ref.score(c, 0, 0, P, c.smpls[0])
    t = m.policy_tree(F, **kw)
    pi, leaf = tree_checks(t, b, F, spec["depth"] or 2, spec["msl"] or 8, "interactive model")
    par = t.policy_tree.get_params()
    same((par["ccp_alpha"], par["min_samples_leaf"], par["max_depth"]), (0.01, spec["msl"] or 8, spec["depth"] or 2), "parameters of the tree")
    t2 = DoubleMLPolicyTree(np.array(b), F, **kw).fit()
    diff = pi != t2.predict(F)["pred_treatment"].to_numpy()
    if diff.any():  # only rounding differences of the signal can matter
        v1, v2 = b @ pi, b @ t2.predict(F)["pred_treatment"].to_numpy()
        ensure(np.isclose(v1, v2, rtol=1e-2, atol=1e-2 * np.abs(b).sum()), "tree of the model and tree of its signal")
    E = (ValueError, TypeError, KeyError)
    raises(E, lambda: m.policy_tree(F.to_numpy(), **kw), "features that are no table")
    raises(E, lambda: m.policy_tree(F, depth=[0, -1, 1.5, "a"][int(rng.integers(4))]), "invalid depth")
    raises(E, lambda: t.predict(F.to_numpy()), "prediction without names")
    raises(E, lambda: t.predict(F.rename(columns={"f0": "other"})), "prediction with another name")
    raises(E, lambda: t.predict(F.assign(extra=1)), "prediction with an additional feature")
    same(t.predict(F)["pred_treatment"].to_numpy(), pi, "decisions after refused requests")
    cx.label("irm")
    cx.nontrivial(len(np.unique(leaf)) > 1)
