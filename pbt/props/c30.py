"""C30: the scores identify the effect and are robust to errors in the nuisance functions."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

import doubleml as dml

from .. import gen
from ..core import Skip, close, ensure, sub

RULE = """A case is a finite population: a few covariate cells with arbitrary treatment / instrument / period / selection counts and arbitrary
outcomes, several exact copies of which form the data, one copy per fold (in several arrangements over repetitions, rows shuffled). With a
learner that predicts cell averages every nuisance function is estimated without error, so the estimate must equal the effect obtained by
standardizing the cell averages (no score formula involved). Then one nuisance function is replaced by arbitrary values (double robustness)
or all of them are perturbed by e and e/10 (the error must shrink quadratically). Non-trivial: at least two cells and an effect that differs
from the naive difference of means."""
ASSUMPTIONS = ["true propensities lie inside the trimming bounds", "normalized weights of IIVM and SSM are excluded (recorded findings of C05 and C08)",
               "CVaR uses a rough preliminary quantile, so only the attained bound is exact", "nonignorable selection splits the training sample at random and is left to C05"]


# ---------------------------------------------------------------- learners that predict cell averages
class _Cells:
    def _fit(self, X, y):
        X = np.asarray(X, dtype=float)
        y = np.asarray(y, dtype=float)
        self.cells_ = {}
        for k, v in zip(map(tuple, np.round(X, 9)), y):
            self.cells_.setdefault(k, []).append(v)
        self.cells_ = {k: float(np.mean(v)) for k, v in self.cells_.items()}
        self.mean_ = float(np.mean(y))
        return self

    def _pred(self, X):
        return np.array([self.cells_.get(k, self.mean_) for k in map(tuple, np.round(np.asarray(X, dtype=float), 9))])


class CellReg(_Cells, RegressorMixin, BaseEstimator):
    def fit(self, X, y):
        return self._fit(X, y)

    def predict(self, X):
        return self._pred(X)


class CellCls(_Cells, ClassifierMixin, BaseEstimator):
    def fit(self, X, y):
        self.classes_ = np.array([0, 1])
        return self._fit(X, y)

    def predict_proba(self, X):
        p = self._pred(X)
        return np.column_stack((1 - p, p))

    def predict(self, X):
        return (self._pred(X) > 0.5).astype(int)


# ---------------------------------------------------------------- populations
class Pop:
    """A finite population (base units) and `k` copies of it."""

    def __init__(self, s):
        self.s = s
        self.rng = rng = np.random.default_rng(s["seed"])
        self.K = s["cells"]
        self.k = s["k"]
        self.r = s["r"]
        self.val = np.round(rng.normal(size=(self.K, 2)), 2)  # covariates of a cell
        self.val[:, 0] += np.arange(self.K) * 5  # cells differ
        self.kind = s["kind"]
        getattr(self, "_" + self.kind)()
        self.nb = len(self.cell)

    def counts(self, *dims, lo=1, hi=4):
        return self.rng.integers(lo, hi, size=(self.K,) + dims)

    def units(self, C):
        """Rows (cell, index...) repeated according to an integer array of counts."""
        rows = []
        for ix in np.ndindex(C.shape):
            rows += [ix] * int(C[ix])
        return np.array(rows)

    def outcome(self, *codes):
        """Arbitrary outcomes whose level depends on the cell and the given variables in an arbitrary way."""
        n = len(codes[0])
        lev = {}
        out = np.empty(n)
        for i, c in enumerate(zip(*codes)):
            if c not in lev:
                lev[c] = self.rng.normal(scale=2)
            out[i] = lev[c] + self.rng.normal()
        return np.round(out, 3) + 0.0

    def within(self, e, *cols):
        """Residual of e on the given columns within each cell."""
        out = e.copy()
        for x in range(self.K):
            i = self.cell == x
            B = np.column_stack([np.ones(i.sum())] + [c[i] for c in cols])
            out[i] = e[i] - B @ np.linalg.lstsq(B, e[i], rcond=None)[0]
        return out

    # -- structures
    def _plr(self):
        self.cell = self.units(self.counts(lo=4, hi=8))[:, 0]
        n = len(self.cell)
        if self.s["bin"]:
            d = np.concatenate([self.rng.permutation(np.arange(np.sum(self.cell == x)) % (2 + x % 2) == 0) for x in range(self.K)]).astype(float)
        else:
            d = self.rng.normal(size=n) + self.rng.normal(size=self.K)[self.cell] * 2
        self.theta = float(np.round(self.rng.normal() * 2, 2))
        e = self.within(self.rng.normal(size=n), d)
        self.d, self.y = d, self.theta * d + (self.rng.normal(size=self.K) * 3)[self.cell] + e

    def _pliv(self):
        self.cell = self.units(self.counts(lo=6, hi=9))[:, 0]
        n = len(self.cell)
        q = 1 + self.s["bin"]
        self.z = self.rng.normal(size=(n, q)) + self.rng.normal(size=(self.K, q))[self.cell]
        self.theta = float(np.round(self.rng.normal() * 2, 2))
        u = self.within(self.rng.normal(size=n), *self.z.T)
        self.d = self.z.sum(axis=1) + u + self.rng.normal(size=self.K)[self.cell] + 0.3 * self.rng.normal(size=n)
        self.y = self.theta * self.d + (self.rng.normal(size=self.K) * 3)[self.cell] + u + self.within(self.rng.normal(size=n), *self.z.T)

    def _irm(self, lo=1):
        u = self.units(self.counts(2, lo=lo, hi=lo + 3))
        self.cell, self.d = u[:, 0], u[:, 1].astype(float)
        self.y = self.outcome(self.cell, self.d)

    def _apo(self):
        u = self.units(self.counts(3, lo=3 if self.K == 1 else 2))
        self.cell, self.d = u[:, 0], u[:, 1].astype(float)
        self.y = self.outcome(self.cell, self.d)

    def _iivm(self):
        u = self.units(self.counts(2, lo=2, hi=5))
        self.cell, self.z = u[:, 0], u[:, 1].astype(float)
        n = len(u)
        self.d = np.where(self.z == 1, self.rng.random(n) < 0.8, self.rng.random(n) < 0.3).astype(float)
        if not self.s["at"]:
            self.d[self.z == 0] = 0.0
        if not self.s["nt"]:
            self.d[self.z == 1] = 1.0
        self.y = self.outcome(self.cell, self.d) + self.d

    _lpq = _iivm

    def _did(self):
        if self.s["exp"]:  # treatment independent of the covariates
            C = self.counts(lo=1, hi=4)[:, None] * self.rng.integers(1, 4, size=2)[None, :]
        else:
            C = self.counts(2)
        u = self.units(C)
        self.cell, self.d = u[:, 0], u[:, 1].astype(float)
        self.y = self.outcome(self.cell, self.d)

    def _didcs(self):
        a = self.rng.integers(1, 3, size=2)
        if self.s["exp"]:
            C = self.counts(lo=1, hi=3)[:, None] * self.rng.integers(1, 3, size=2)[None, :]
        else:
            C = self.counts(2, hi=3)
        u = self.units(C[:, :, None] * a[None, None, :])
        self.cell, self.d, self.t = u[:, 0], u[:, 1].astype(float), u[:, 2].astype(float)
        self.y = self.outcome(self.cell, self.d, self.t)

    def _ssm(self):
        u = self.units(self.counts(2, 2))
        self.cell, self.d, self.sel = u[:, 0], u[:, 1].astype(float), u[:, 2].astype(float)
        self.y = self.outcome(self.cell, self.d) * self.sel

    def _pq(self):
        self._irm(lo=3)
        self.y = self.y + np.arange(len(self.y)) * 1e-4

    _cvar = _pq

    # -- means
    def mean(self, v, *conds):
        """Cell averages of v among the units satisfying all conditions, per base unit."""
        ok = np.ones(self.nb, dtype=bool)
        for c in conds:
            ok &= c
        return np.array([v[ok & (self.cell == x)].mean() for x in range(self.K)])[self.cell]

    # -- data
    def frame(self):
        n, k, nb = self.nb * self.k, self.k, self.nb
        base = np.tile(np.arange(nb), k)
        perm = self.rng.permutation(n)
        self.base = base[perm]
        copy = np.repeat(np.arange(k), nb)[perm]
        self.n = n
        c = {"x1": self.val[self.cell, 0], "x2": self.val[self.cell, 1], "y": self.y, "d": self.d}
        for a in ("t", "sel"):
            if hasattr(self, a):
                c[a] = getattr(self, a)
        if hasattr(self, "z"):
            Z = self.z if self.z.ndim == 2 else self.z[:, None]
            for j in range(Z.shape[1]):
                c[f"z{j}"] = Z[:, j]
        df = pd.DataFrame({a: v[self.base] for a, v in c.items()})
        self.smpls = []
        for r in range(self.r):
            fold = copy.copy()
            if r:  # another arrangement of the copies of each unit over the folds
                for b in range(nb):
                    i = self.base == b
                    fold[i] = self.rng.permutation(k)
            self.smpls.append([(np.flatnonzero(fold != j), np.flatnonzero(fold == j)) for j in range(k)])
        return df

    def data(self, df):
        return dml.DoubleMLData(df, "y", "d", x_cols=["x1", "x2"], z_cols=[c for c in df.columns if c.startswith("z")] or None,
                                t_col="t" if "t" in df else None, s_col="sel" if "sel" in df else None)


KINDS = ("plr", "pliv", "irm", "apo", "iivm", "did", "didcs", "ssm", "pq", "lpq", "cvar")


def spec_of(kinds):
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "seed": gen.SEED, "cells": st.integers(1, 4), "k": st.integers(2, 3), "r": st.integers(1, 2),
                                  "bin": st.integers(0, 1), "at": st.integers(0, 1), "nt": st.integers(0, 1), "exp": st.integers(0, 1), "norm": st.integers(0, 1),
                                  "score": st.integers(0, 2), "w": st.integers(0, 2), "q": st.sampled_from([0.2, 0.5, 0.73, 0.9]), "level": st.integers(0, 2),
                                  "trim": st.sampled_from([1e-12, 0.01, 0.05])})


def flat_density(u, weights):
    """Stand-in for the density estimate (the default one fails for outcomes with many ties); it only enters the standard error."""
    return np.array([1.0])


def build(p, df, norm=None, fake=()):
    """The model of a population, the true effect and the true nuisance functions per base unit."""
    s = p.s
    data = p.data(df)
    R, C = CellReg(), CellCls()
    kw = dict(n_folds=p.k, n_rep=p.r, draw_sample_splitting=False)
    w1 = p.d == 1
    w0 = p.d == 0
    tk = dict(trimming_threshold=s["trim"])
    norm = bool(s["norm"]) if norm is None else norm
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if p.kind == "plr":
            M = C if s["bin"] and s["norm"] else R
            if s["score"]:
                m = dml.DoubleMLPLR(data, R, M, R, score="IV-type", **kw)
            else:
                m = dml.DoubleMLPLR(data, R, M, **kw)
            truth = p.theta
            nuis = {"ml_l": p.mean(p.y), "ml_m": p.mean(p.d), "ml_g": p.mean(p.y - p.theta * p.d)}
        elif p.kind == "pliv":
            if s["score"] and not s["bin"]:
                m = dml.DoubleMLPLIV(data, R, R, R, R, score="IV-type", **kw)
            else:
                m = dml.DoubleMLPLIV(data, R, R, R, **kw)
            truth = p.theta
            nuis = {"ml_l": p.mean(p.y), "ml_r": p.mean(p.d), "ml_g": p.mean(p.y - p.theta * p.d)}
            Z = p.z
            for j in range(Z.shape[1]):
                nuis["ml_m" + (f"_z{j}" if Z.shape[1] > 1 else "")] = p.mean(Z[:, j])
        elif p.kind == "irm":
            tau = p.mean(p.y, w1) - p.mean(p.y, w0)
            if s["score"] == 2:
                m = dml.DoubleMLIRM(data, R, C, score="ATTE", normalize_ipw=norm, **tk, **kw)
                truth = tau[w1].mean()
            else:
                w = None
                wt = np.ones(p.nb)
                if s["w"] == 1:  # weights that are constant in a cell
                    wt = p.rng.random(p.K)[p.cell]
                    w = wt[p.base]
                elif s["w"] == 2:  # arbitrary weights with their conditional expectation
                    wt = p.rng.random(p.nb)
                    w = {"weights": wt[p.base], "weights_bar": np.repeat(p.mean(wt)[p.base][:, None], p.r, axis=1)}
                m = dml.DoubleMLIRM(data, R, C, normalize_ipw=norm and s["w"] == 0, weights=w, **tk, **kw)
                truth = (wt * tau).mean()
            nuis = {"ml_g0": p.mean(p.y, w0), "ml_g1": p.mean(p.y, w1), "ml_m": p.mean(p.d)}
        elif p.kind == "apo":
            lv = float(s["level"])
            wt = np.ones(p.nb)
            w = None
            if s["w"]:
                wt = p.rng.random(p.K)[p.cell]
                w = wt[p.base]
            m = dml.DoubleMLAPO(data, R, C, treatment_level=lv, normalize_ipw=norm and not s["w"], weights=w, **tk, **kw)
            truth = (wt * p.mean(p.y, p.d == lv)).mean()
            nuis = {"ml_g_d_lvl0": np.select([p.d == v for v in range(3)], [p.mean(p.y, p.d == v) for v in range(3)]),
                    "ml_g_d_lvl1": p.mean(p.y, p.d == lv), "ml_m": p.mean((p.d == lv).astype(float))}
        elif p.kind == "iivm":
            z1, z0 = p.z == 1, p.z == 0
            sg = {"always_takers": bool(s["at"]), "never_takers": bool(s["nt"])}
            m = dml.DoubleMLIIVM(data, R, C, C, subgroups=sg, normalize_ipw=False, **tk, **kw)
            den = (p.mean(p.d, z1) - p.mean(p.d, z0)).mean()
            if den < 0.2:
                raise Skip("weak instrument")
            truth = (p.mean(p.y, z1) - p.mean(p.y, z0)).mean() / den
            nuis = {"ml_g0": p.mean(p.y, z0), "ml_g1": p.mean(p.y, z1), "ml_m": p.mean(p.z), "ml_r0": p.mean(p.d, z0), "ml_r1": p.mean(p.d, z1)}
        elif p.kind == "did":
            sc = "experimental" if s["exp"] else "observational"
            m = dml.DoubleMLDID(data, R, None if s["exp"] else C, score=sc, in_sample_normalization=norm, **tk, **kw)
            truth = (p.mean(p.y, w1) - p.mean(p.y, w0))[w1].mean()
            nuis = {"ml_g0": p.mean(p.y, w0), "ml_g1": p.mean(p.y, w1)}
            if not s["exp"]:
                nuis["ml_m"] = p.mean(p.d)
        elif p.kind == "didcs":
            sc = "experimental" if s["exp"] else "observational"
            m = dml.DoubleMLDIDCS(data, R, None if s["exp"] else C, score=sc, in_sample_normalization=norm, **tk, **kw)
            g = {(a, b): p.mean(p.y, p.d == a, p.t == b) for a in (0, 1) for b in (0, 1)}
            truth = (g[1, 1] - g[1, 0] - g[0, 1] + g[0, 0])[w1].mean()
            nuis = {f"ml_g_d{a}_t{b}": g[a, b] for a in (0, 1) for b in (0, 1)}
            if not s["exp"]:
                nuis["ml_m"] = p.mean(p.d)
        elif p.kind == "ssm":
            m = dml.DoubleMLSSM(data, R, C, C, score="missing-at-random", normalize_ipw=False, **tk, **kw)
            truth = (p.mean(p.y, w1, p.sel == 1) - p.mean(p.y, w0, p.sel == 1)).mean()
            nuis = None
        else:
            tr = s["level"] % 2
            if p.kind == "pq":
                m = dml.DoubleMLPQ(data, C, C, treatment=tr, quantile=s["q"], normalize_ipw=norm, kde=flat_density, **tk, **kw)
            elif p.kind == "cvar":
                m = dml.DoubleMLCVAR(data, R, C, treatment=tr, quantile=s["q"], normalize_ipw=norm, **tk, **kw)
            else:
                m = dml.DoubleMLLPQ(data, C, C, treatment=tr, quantile=s["q"], normalize_ipw=False, kde=flat_density, **tk, **kw)
            truth = nuis = None
    m.set_sample_splitting(p.smpls)
    return m, truth, nuis


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def scale(p):
    return 1 + float(np.max(np.abs(p.y)))


LINEAR = ("plr", "pliv", "irm", "apo", "iivm", "did", "didcs", "ssm")


@sub("exact", spec_of(LINEAR), quick=900)
def exact(spec, cx):
    p = Pop(spec)
    df = p.frame()
    m, truth, nuis = build(p, df)
    quiet(m.fit)
    tol = 1e-8 * scale(p)
    for r in range(p.r):
        close(m.all_coef[0, r], truth, f"effect estimated by {p.kind} with exact nuisance functions, repetition {r}", 1e-7, tol)
    close(m.coef[0], truth, "reported effect", 1e-7, tol)
    if nuis:
        for k, v in nuis.items():
            if k in m.params_names and k != "ml_g_d_lvl0" and not (k == "ml_g1" and p.kind in ("did",)) and (p.kind, k) != ("didcs", "ml_g_d1_t1"):
                if not (p.kind == "iivm" and k in ("ml_r0", "ml_r1")):
                    close(m.predictions[k][:, 0, 0], v[p.base], f"prediction of {k}", 1e-7, 1e-8 * scale(p))
    if p.kind == "irm" and spec["score"] < 2 and spec["w"] == 0 and p.K > 1 and p.r == 1:
        tau = nuis["ml_g1"] - nuis["ml_g0"]
        G = pd.DataFrame({"G": np.array([f"c{min(v, 1)}" for v in p.cell])[p.base]})
        g = quiet(lambda: m.gate(G))
        want = [tau[p.cell == 0].mean(), tau[p.cell > 0].mean()]
        close(np.asarray(g.blp_model.params), want, "group effects of groups of cells", 1e-7, tol)
        B = pd.DataFrame(np.column_stack([np.ones(p.n), p.val[p.cell, 0][p.base]]), columns=["c", "x1"])
        b = quiet(lambda: m.cate(B))
        close(np.asarray(b.blp_model.params), np.linalg.lstsq(B.to_numpy(), tau[p.base], rcond=None)[0], "projection of the conditional effect", 1e-6, tol)
    naive = p.y[p.d == 1].mean() - p.y[p.d == 0].mean() if set(np.unique(p.d)) <= {0.0, 1.0} else 0.0
    cx.label(p.kind, f"cells={p.K}", f"score={spec['score']}")
    cx.nontrivial(p.K > 1 and abs(truth - naive) > 1e-3)


# ---------------------------------------------------------------- distributions
def std_cdf(p, v, arm):
    """Distribution function of the potential outcome: standardized shares of outcomes <= v."""
    return p.mean((p.y <= v).astype(float), p.d == arm).mean()


@sub("quantiles", spec_of(("pq", "lpq", "cvar")), quick=400)
def quantiles(spec, cx):
    p = Pop(spec)
    df = p.frame()
    tr = spec["level"] % 2
    q = spec["q"]
    if p.kind == "lpq":
        z1, z0 = p.z == 1, p.z == 0
        den = (p.mean(p.d, z1) - p.mean(p.d, z0)).mean()
        if den < 0.25:
            raise Skip("weak instrument")
    m, _, _ = build(p, df)
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        try:
            m.fit()
        except ValueError as e:  # the inner split of a training sample is stratified by treatment (and instrument)
            if any(t in str(e) for t in ("least populated class", "number of classes", "number of splits", "n_splits")):
                raise Skip("too few units for the inner split")
            raise
    if any("Could not find a root" in str(w.message) for w in W):
        raise Skip("announced failure of the root search (rough preliminary quantile)")
    lo, hi = p.y.min(), p.y.max()
    eps = 1e-6 * (hi - lo + 1)
    ok = 0
    for r in range(p.r):
        t = float(m.all_coef[0, r])
        if p.kind == "cvar":
            if np.isnan(t) and p.nb * p.k < 60:
                raise Skip("an inner half sample contains no unit of the arm")
            tail = lambda v: (p.mean(np.maximum(v, p.y) - q * v, p.d == tr) / (1 - q)).mean()  # noqa: E731
            best = min(tail(v) for v in p.y)
            ensure(t >= best - eps, f"conditional value at risk {t} below the attainable minimum {best}")
            ok += 1
            continue
        if p.kind == "pq":
            F = lambda v: std_cdf(p, v, tr)  # noqa: E731
            inner = [v for v in np.unique(p.y[p.d == tr])]
        else:
            sg = 1.0 if tr == 1 else -1.0
            ind = p.d == tr
            F = lambda v: sg * (p.mean((ind & (p.y <= v)).astype(float), z1) - p.mean((ind & (p.y <= v)).astype(float), z0)).mean() / den  # noqa: E731
            inner = [v for v in np.unique(p.y[ind])]
        # the empirical moment changes sign at the estimate, provided it does so between the bounds used by the search
        a, b = F(min(inner)) - q, F(max(inner)) - q
        if not (a < 0 < b):
            continue
        lft, rgt = F(t - eps) - q, F(t + eps) - q
        ensure(lft <= 1e-9 and rgt >= -1e-9 if p.kind == "pq" else lft * rgt <= 1e-12,
               f"{p.kind}: the standardized distribution function is {lft + q} left and {rgt + q} right of the estimate {t} (level {q})")
        ok += 1
    cx.label(p.kind, f"arm={tr}")
    cx.nontrivial(p.K > 1 and ok > 0)


# ---------------------------------------------------------------- double robustness
ROBUST = {"plr": [["ml_l"], ["ml_g"]], "pliv": [["ml_l"], ["ml_g"]], "irm": [["ml_g0", "ml_g1"], ["ml_m"]], "apo": [["ml_g_d_lvl0", "ml_g_d_lvl1"], ["ml_m"]],
          "iivm": [["ml_g0", "ml_g1"], ["ml_r0", "ml_r1"], ["ml_g0", "ml_g1", "ml_r0", "ml_r1"], ["ml_m"]], "did": [["ml_g0"], ["ml_m"]],
          "didcs": [["ml_g_d0_t0", "ml_g_d0_t1"], ["ml_g_d1_t0", "ml_g_d1_t1"], ["ml_g_d0_t0", "ml_g_d0_t1", "ml_g_d1_t0", "ml_g_d1_t1"], ["ml_m"]]}


def supply(p, m, nuis):
    return {"d": {k: np.repeat(v[p.base][:, None], p.r, axis=1) for k, v in nuis.items() if k in m.params_names}}


@sub("robust", st.fixed_dictionaries({"p": spec_of(tuple(ROBUST)), "which": st.integers(0, 3), "seed": gen.SEED}), quick=700)
def robust(spec, cx):
    p = Pop(spec["p"])
    df = p.frame()
    opts = ROBUST[p.kind]
    wrong = opts[spec["which"] % len(opts)]
    normfree = "ml_m" in wrong  # normalized weights change the role of a wrong propensity
    m, truth, nuis = build(p, df)
    nuis = dict(nuis)
    if p.kind in ("irm",) and spec["p"]["score"] == 2 and "ml_g1" in wrong:
        wrong = ["ml_g0"]
    if not any(k in m.params_names for k in wrong):
        raise Skip("nuisance function not used")
    if p.kind == "irm" and spec["p"]["score"] != 2 and spec["p"]["w"] == 2 and "ml_m" in wrong:
        raise Skip("weights depend on the arm")
    rng = np.random.default_rng(spec["seed"])
    for k in wrong:
        v = rng.random(p.K) * 0.8 + 0.1 if k in ("ml_m", "ml_r0", "ml_r1") and p.kind != "pliv" else nuis[k] + rng.normal(scale=3, size=p.K)[p.cell]
        nuis[k] = v[p.cell] if len(v) == p.K and k in ("ml_m", "ml_r0", "ml_r1") and p.kind != "pliv" else v
    quiet(lambda: m.fit(external_predictions=supply(p, m, nuis)))
    tol = 1e-7 * scale(p) * 10
    for r in range(p.r):
        close(m.all_coef[0, r], truth, f"{p.kind} with wrong {wrong}, repetition {r}", 1e-6, tol)
    cx.label(p.kind, "wrong " + "/".join(wrong), f"normalized={normfree}")
    cx.nontrivial(p.K > 1)


@sub("orthogonal", st.fixed_dictionaries({"p": spec_of(tuple(ROBUST)), "seed": gen.SEED}), quick=500)
def orthogonal(spec, cx):
    """All nuisance functions wrong by e and by e/10: the error of the estimate is of second order."""
    p = Pop(spec["p"])
    df = p.frame()
    m, truth, nuis = build(p, df)
    rng = np.random.default_rng(spec["seed"])
    used = [k for k in nuis if k in m.params_names]
    H = {k: rng.uniform(-1, 1, p.K)[p.cell] for k in used}
    err = []
    for e in (2e-2, 2e-3):
        ext = supply(p, m, {k: nuis[k] + e * H[k] for k in used})
        quiet(lambda: m.fit(external_predictions=ext))
        err.append(abs(float(m.all_coef[0, 0]) - truth))
    if p.kind in ("irm", "apo", "did", "didcs", "iivm") and any(np.min(np.minimum(nuis["ml_m"], 1 - nuis["ml_m"])) < 0.12 for _ in [0] if "ml_m" in nuis):
        raise Skip("propensities too extreme for the asymptotic comparison")
    floor = 1e-9 * scale(p)
    ensure(err[1] <= 0.04 * err[0] + floor, f"{p.kind}: errors {err} of the estimate under errors of size 0.02 and 0.002 in {used}: first-order effect")
    cx.label(p.kind, "second order" if err[0] > 1e-9 else "exactly zero")
    cx.nontrivial(err[0] > 1e-9)
