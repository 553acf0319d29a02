"""C09: cluster-robust estimation."""
import numpy as np
from hypothesis import strategies as st

import doubleml as dml

from .. import common, gen, ref
from ..core import Skip, close, ensure, sub

RULE = """A case is a one- or two-way clustered data set (8-30 clusters per dimension, unequal sizes, in two dimensions also empty cells),
a model class, 2-3 folds per dimension, 1-2 repetitions, fitted or arbitrary nuisance values. Non-trivial: clusters of unequal size
or (two-way) unequal fold weights, and a cluster-robust standard error that differs from the unclustered formula."""
ASSUMPTIONS = ["nuisance predictions are read from the fitted model (their correctness is C01)",
               "outside the domain: splittings whose training cells lack a treatment/instrument status"]

KI = ("plr", "pliv", "irm", "apo", "iivm", "ssm", "did", "didcs")
S1 = gen.specs(kinds=KI, cluster=(1, 2), max_k=3, max_r=2)


def check(c, m, cx):
    nt = False
    N = None
    for r in range(c.r):
        for j in range(c.nt):
            P = common.stored(c, m, r, j)
            a, b = ref.score(c, j, r, P, c.smpls[r])
            if c.kind == "iivm" and c.o["norm"]:  # recorded under C05/C08: take the score as it is
                a, b = m.psi_elements["psi_a"][:, r, j], m.psi_elements["psi_b"][:, r, j]
            w = f"{c.kind} {c.cl}-way rep {r} treatment {c.dn[j]}"
            th = ref.solve_cluster(a, b, c.smpls[r], c.smpls_cluster[r])
            close(m.all_coef[j, r], th, w + " estimate", 1e-6, 1e-9)
            psi = a * th + b
            se, N = ref.sandwich_cluster(psi, a * np.ones(c.n), c.C, c.smpls[r], c.smpls_cluster[r], c.k)
            close(m.all_se[j, r], se, w + " standard error", 1e-6, 1e-9)
            close(m.psi[:, r, j], psi, w + " score", 1e-6, 1e-8)
            nt |= not np.isclose(se, ref.sandwich(psi, a * np.ones(c.n)), rtol=1e-6)
    co, se = ref.aggregate(np.asarray(m.all_coef), np.asarray(m.all_se), float(N))
    close(m.coef, co, "reported estimate")
    close(m.se, se, "reported standard error")
    close(m.framework.ses, se, "framework standard error")
    cx.label(f"{c.kind} {c.cl}-way", f"k={c.k}", f"reps={c.r}")
    cx.nontrivial(nt)


@sub("fitted", S1, quick=900)
def fitted(spec, cx):
    c = common.need_cells(gen.Case(spec))
    check(c, c.make().fit(), cx)


@sub("arbitrary_nuisances", common.with_flag(gen.specs(kinds=common.EXTERNAL, cluster=(1, 2), max_k=3, max_r=2), s=gen.SEED), quick=700)
def arbitrary(spec, cx):
    c = gen.Case(spec["c"])
    if c.kind == "pliv" and c.o["var"] in ("z", "zm", "xz", "xzm"):
        raise Skip("no external predictions for this variant")
    ext = common.external(c, seed=spec["s"])
    if c.kind in ("did", "didcs") and c.o["score"] == "experimental":
        ext = {d: {k: v for k, v in e.items() if k != "ml_m"} for d, e in ext.items()}
    if c.kind in ("did", "didcs"):
        for sm in c.smpls:  # the shares are inverted
            for tr, te in sm:
                if not 0 < np.mean(c.D[tr, 0]) < 1 or (c.T is not None and not 0 < np.mean(c.T[tr]) < 1):
                    raise Skip("empty cell")
    m = c.make()
    m.fit(external_predictions=ext)
    check(c, m, cx)


@sub("labels", common.with_flag(gen.specs(kinds=("plr", "pliv", "irm", "iivm", "did"), cluster=(1, 2), max_k=3, max_r=2), s=gen.SEED,
                                kind=st.sampled_from(["int", "float", "neg"])), quick=400)
def labels(spec, cx):
    """Cluster labels matter only through the partition they induce."""
    c = common.need_cells(gen.Case(spec["c"]))
    m = c.make().fit()
    c2 = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    newC = np.empty(c.C.shape, dtype=float if spec["kind"] == "float" else int)
    maps = []
    for j in range(c.C.shape[1]):
        u = np.unique(c.C[:, j])
        v = rng.permutation(len(u)) * 5 - (1000 if spec["kind"] == "neg" else 0)
        v = v / 2.0 if spec["kind"] == "float" else v
        mp = dict(zip(u, v))
        maps.append(mp)
        newC[:, j] = [mp[x] for x in c.C[:, j]]
        c2.df[c2.cn[j]] = newC[:, j]
    c2.C = newC
    c2.smpls_cluster = [[tuple([np.sort([maps[j][x] for x in part[j]]) for j in range(c.cl)] for part in fold) for fold in rep]
                        for rep in c.smpls_cluster]
    m2 = c2.make().fit()
    close(m2.all_coef, m.all_coef, "estimate after relabelling the clusters", 1e-9)
    close(m2.all_se, m.all_se, "standard error after relabelling the clusters", 1e-8)
    cx.label(f"{c.kind} {c.cl}-way")
    cx.nontrivial(bool(np.all(m.all_se > 0)))


@sub("singletons", common.with_flag(gen.specs(kinds=("plr", "pliv", "irm", "did"), max_k=4, max_r=2, split=("strat",)), s=gen.SEED), quick=350)
def singletons(spec, cx):
    """One observation per cluster and folds of equal size: same estimate and standard error as without clusters."""
    c = gen.Case(spec["c"])
    n = c.n - c.n % c.k
    if n != c.n:  # shorten to a multiple of the number of folds
        c.df = c.df.iloc[:n].reset_index(drop=True)
        c.n = n
        for a in ("X", "Y", "D", "Z", "T", "strata"):
            v = getattr(c, a)
            if v is not None:
                setattr(c, a, v[:n])
        if isinstance(c.weights_arg, dict):
            c.weights_arg = {k: v[:n] for k, v in c.weights_arg.items()}
        elif c.weights_arg is not None:
            c.weights_arg = c.weights_arg[:n]
    rng = np.random.default_rng(spec["s"])
    perm = [rng.permutation(n) for _ in range(c.r)]
    if c.strata is not None:
        perm = [p[np.argsort(c.strata[p], kind="stable")] for p in perm]
    sm = [[(np.sort(np.setdiff1d(np.arange(n), p[f::c.k])), np.sort(p[f::c.k])) for f in range(c.k)] for p in perm]
    c.smpls = sm
    common.need_cells(c)
    m = c.make().fit()
    lab = rng.permutation(n) + 17
    df = c.df.copy()
    df["cl"] = lab
    a = {"y_col": "y", "d_cols": list(c.dn) if c.nt > 1 else c.dn[0], "x_cols": list(c.xn), "cluster_cols": "cl",
         "use_other_treat_as_covariate": bool(c.o.get("other", True))}
    if c.zn:
        a["z_cols"] = list(c.zn) if len(c.zn) > 1 else c.zn[0]
    m2 = c.make(data=dml.DoubleMLClusterData(df, **a), setsmpls=False, draw_sample_splitting=False)
    m2.set_sample_splitting(sm, [[([np.sort(lab[tr])], [np.sort(lab[te])]) for tr, te in s] for s in sm])
    m2.fit()
    close(m2.all_coef, m.all_coef, "estimate with singleton clusters", 1e-9)
    close(m2.all_se, m.all_se, "standard error with singleton clusters", 1e-8)
    ensure(m2.n_rep == c.r, "repetitions")
    close(m2.se, m.se, "reported standard error with singleton clusters", 1e-8)
    cx.label(c.kind, f"k={c.k}")
    cx.nontrivial(bool(np.all(m.all_se > 0)))
