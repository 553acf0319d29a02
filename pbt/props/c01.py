"""C01: every stored nuisance prediction is the out-of-fold prediction of a fresh learner trained on the conditional training rows."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Fail, close, ensure, sub

RULE = """A case is a generated data set (36-180 rows, 1-4 covariates), a model class with one combination of its score and
subgroup options, learners with distinct ridge penalties, 2-4 folds and 1-3 repetitions (supplied or drawn splitting, supplied
training sets possibly smaller than the complement, clustered splittings). Non-trivial: every nuisance function of the case was
compared with an independently trained fresh learner on every fold and no two nuisance functions have equal predictions."""
ASSUMPTIONS = ["learners: deterministic closed-form ridge regression and linear-logit classifier, whose predictions depend on every training row",
               "preliminary quantile search of PQ/LPQ/CVaR and nested half-split (seed 42, stratified) are taken as documented"]


def compare(c, m, smpls_all, params=None):
    names = c.nuis_names()
    ensure(set(names) <= set(m.predictions), f"nuisance names {sorted(m.predictions)} lack {names}")
    seen = []
    for r in range(c.r):
        for j in range(c.nt):
            N = ref.nuisances(c, j, r, params=params, smpls=smpls_all[r])
            for nm in names:
                want = ref.stored_pred(c, nm, N[nm].preds)
                close(m.predictions[nm][:, r, j], want, f"{c.kind} prediction {nm} rep {r} treatment {c.dn[j]}", 1e-6, 1e-8)
                if r == 0:
                    seen.append(want)
    return seen


@sub("supplied_splitting", gen.specs(), quick=900, thorough=9000)
def supplied(spec, cx):
    c = gen.Case(spec)
    m = c.make()
    m.fit()
    seen = compare(c, m, c.smpls)
    cx.label(c.kind, f"{c.kind}:{c.o.get('score', c.o.get('var', ''))}", f"split={spec['split']}")
    cx.nontrivial(all(np.max(np.abs(a - b)) > 1e-9 for i, a in enumerate(seen) for b in seen[:i] if c.kind not in ("iivm",)))


@sub("drawn_splitting", gen.specs(max_r=2), quick=250, thorough=2500)
def drawn(spec, cx):
    c = gen.Case(spec)
    np.random.seed(spec["seed"] % 2**32)
    m = c.make(setsmpls=False)
    sm = [list(x) for x in m.smpls]
    m.fit()
    compare(c, m, sm)
    cx.label(c.kind)
    cx.nontrivial()


@sub("cluster", gen.specs(kinds=("plr", "pliv", "irm", "iivm", "did"), cluster=(1, 2), max_k=3, max_r=2), quick=160, thorough=1600)
def cluster(spec, cx):
    c = gen.Case(spec)
    for sm in c.smpls:
        for tr, te in sm:  # every conditioning cell has to be represented
            if c.strata is not None and len(np.unique(c.strata[tr])) < len(np.unique(c.strata)):
                from ..core import Skip

                raise Skip("empty training cell")
    m = c.make()
    m.fit()
    compare(c, m, c.smpls)
    cx.label(f"{c.kind} {c.cl}-way")
    cx.nontrivial()


NI = gen.specs(kinds=("plr", "pliv", "irm", "apo", "iivm", "ssm", "did", "didcs"), max_r=2, split=("strat",))


@sub("non_interference", st.tuples(NI, st.integers(0, 3), st.integers(1, 3), st.sampled_from(["y", "d", "z", "s"])).map(
    lambda t: {"c": t[0], "fold": t[1], "cnt": t[2], "what": t[3]}), quick=300, thorough=3000)
def non_interference(spec, cx):
    """Changing outcome / treatment / instrument / selection of test observations leaves the fold's predictions alone."""
    c = gen.Case(spec["c"])
    what = spec["what"]
    if what == "z" and c.Z is None:
        what = "y"
    if what == "s" and c.S is None:
        what = "y"
    o = c.o
    m = c.make().fit()
    f = spec["fold"] % c.k
    te = c.smpls[0][f][1]
    rows = te[: spec["cnt"]]
    df = c.df.copy()
    binary_d = c.kind != "pliv" and (c.kind != "plr" or o["mcls"])
    changes_x = False
    if what == "y":
        df.loc[df.index[rows], "y"] = 1 - df["y"].iloc[rows] if o.get("ybin") else df["y"].iloc[rows] * -3 + 50.0
    elif what == "d":
        if c.kind == "apo":
            df.loc[df.index[rows], "d"] = (df["d"].iloc[rows] + 1) % 3
        else:
            col = c.dn[0]
            df.loc[df.index[rows], col] = 1 - df[col].iloc[rows] if binary_d else df[col].iloc[rows] * -2 + 9.0
    elif what == "z":
        col = c.zn[0]
        df.loc[df.index[rows], col] = 1 - df[col].iloc[rows] if c.kind in ("iivm", "lpq") else df[col].iloc[rows] * -2 + 7.0
    else:
        df.loc[df.index[rows], "s"] = 1 - df["s"].iloc[rows]
    m2 = c.make(data=c.data(df)).fit()
    for nm in c.nuis_names():
        if nm == "ml_g" and c.kind in ("plr", "pliv"):
            continue  # target built from the documented full-sample preliminary estimate
        own_x = (what == "d" and (nm in ("ml_g_d_lvl0", "ml_pi") or (c.kind == "ssm" and o["score"] == "nonignorable"))) or (
            what == "z" and (c.kind == "pliv" and o["var"][0] in "zx" and o["var"] in ("z", "zm", "xz", "xzm") or c.kind == "ssm"))
        # where the changed value is itself a feature, the other test rows still must not move
        keep = np.setdiff1d(te, rows) if own_x else te
        for j in range(c.nt):
            if what == "d" and c.nt > 1 and o.get("other", True) and j != 0:
                keep = np.setdiff1d(te, rows)
            close(m2.predictions[nm][keep, 0, j], m.predictions[nm][keep, 0, j],
                  f"{c.kind} {nm}: prediction in the test fold moved when {what} of test rows changed", 1e-9, 1e-10)
    cx.label(f"{c.kind}:{what}")
    cx.nontrivial(not np.allclose(m.coef, m2.coef))
    _ = changes_x, Fail
