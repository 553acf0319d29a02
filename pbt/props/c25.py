"""C25: regression discontinuity designs."""
import contextlib
import io
import traceback
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import norm

import doubleml as dml
from doubleml.rdd import RDFlex

from .. import gen
from ..core import Skip, close, ensure, sub
from ..learners import LOG, AffCls, AffReg, RdCls, RdReg

RULE = """A case is a data set with score, cutoff, binary treatment (sharp, fuzzy or one-sided), continuous or binary outcome, a first stage
specification and kernel, a bandwidth (given or chosen), numbers of folds, repetitions and iterations and options passed on to the final
estimator. Non-trivial: the fit succeeds and observations on both sides have positive first stage weight while others have none, or
(metamorphic checks) the transformation is not the identity."""
ASSUMPTIONS = ["rdrobust is the reference for bandwidth selection and local polynomial estimation",
               "the first stage is fitted repetition by repetition, iteration by iteration, fold by fold (recovered from recorded fits)"]

SPECS = ["cutoff", "cutoff and score", "interacted cutoff and score"]
KERNELS = {"uniform": lambda x, h: (np.abs(x) <= h).astype(float),
           "triangular": lambda x, h: np.clip(1 - np.abs(x) / h, 0, None),
           "epanechnikov": lambda x, h: np.where(np.abs(x) < h, 0.75 * (1 - (x / h) ** 2), 0.0)}


def cauchy(x, h):
    return 1.0 / (1.0 + (x / h) ** 2)


KW = st.sampled_from([{}, {}, {}, {"kernel": "uni"}, {"kernel": "epa"}, {"p": 2}, {"bwselect": "msetwo"}, {"bwselect": "cerrd"}, {"level": 90},
                      {"vce": "hc1"}, {"bwselect": "msetwo", "kernel": "uni"}])
CASE = st.fixed_dictionaries({
    "seed": gen.SEED, "n": st.integers(0, 120), "p": st.integers(1, 3), "k": st.integers(2, 4), "r": st.sampled_from([1, 1, 2, 3]),
    "it": st.sampled_from([1, 2, 2, 3]), "fuzzy": st.booleans(), "design": st.sampled_from(["sharp", "two", "left", "right"]),
    "ybin": st.sampled_from([0, 0, 0, 1, 2]), "fs": st.sampled_from(SPECS), "kern": st.sampled_from(["uniform", "triangular", "epanechnikov", "Triangular", "call"]),
    "h": st.sampled_from([None, None, 0.75, 1.0, 1.5, 2.5]), "c": st.sampled_from([0, 0.0, 0.25, -0.5, 1, 3.0, -10]), "grid": st.booleans(),
    "kw": KW, "al": st.sampled_from([0.1, 1.0]), "ints": st.booleans()})


class RD:
    def __init__(self, s):
        self.s = s
        rng = self.rng = np.random.default_rng(s["seed"])
        n = self.n = 160 + s["n"]
        self.c = s["c"]
        sc = rng.normal(size=n) if rng.random() < 0.5 else rng.uniform(-2, 2, size=n)
        sc = np.round(sc * 64) / 64 + (0.0 if s["grid"] else rng.uniform(0.001, 0.004, size=n))
        if s["grid"]:
            sc[rng.integers(n, size=2)] = 0.0
        self.sc = sc            # centred
        self.X = np.column_stack([np.arange(n) / n] + [rng.normal(size=n) for _ in range(s["p"])])
        t = self.t = sc >= 0
        des = s["design"] if s["fuzzy"] else "sharp"
        pr = {"sharp": t * 1.0, "two": np.where(t, 0.85, 0.15), "left": np.where(t, 1.0, 0.25), "right": np.where(t, 0.75, 0.0)}[des]
        self.D = (rng.random(n) < pr).astype(float)
        y0 = 0.5 * sc + self.X @ rng.normal(size=s["p"] + 1) + 1.2 * self.D * (1 + 0.3 * sc) + rng.normal(size=n)
        if s["ybin"]:
            self.Y = (rng.random(n) < 1 / (1 + np.exp(-y0))).astype(float)
        else:
            self.Y = np.round(y0 * 8) if s["ints"] else y0
        if len(np.unique(self.D)) < 2 or len(np.unique(self.Y)) < 2:
            raise Skip("one class")
        self.xn = [f"X{i}" for i in range(s["p"] + 1)]
        self.kern = cauchy if s["kern"] == "call" else s["kern"]

    def frame(self, Y=None, sc=None, c=None, D=None):
        c = self.c if c is None else c
        df = pd.DataFrame(self.X, columns=self.xn)
        df["y"], df["d"], df["s"] = self.Y if Y is None else Y, self.D if D is None else D, (self.sc if sc is None else sc) + c
        return df

    def model(self, df, spy=True, c=None, h=0, **kw):
        s = self.s
        R, C = (RdReg, RdCls) if spy else (AffReg, AffCls)
        g = (C if s["ybin"] == 1 else R)(alpha=s["al"], tag="g")
        m = C(alpha=2 * s["al"], tag="m") if s["fuzzy"] else None
        data = dml.DoubleMLData(df, "y", "d", self.xn, s_col="s")
        np.random.seed(7)
        kw = {**dict(cutoff=self.c if c is None else c, n_folds=s["k"], n_rep=s["r"], h_fs=s["h"] if h == 0 else h, fs_specification=s["fs"],
                     fs_kernel=self.kern), **s["kw"], **kw}
        return RDFlex(data, g, m, fuzzy=s["fuzzy"], **kw)


def guarded(f):
    """Run something that may fail inside rdrobust for degenerate bandwidths."""
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return f()
    except Exception as e:
        if any("rdrobust" in fr.filename.replace("\\", "/").split("/") for fr in traceback.extract_tb(e.__traceback__)):
            raise Skip("rdrobust fails: " + type(e).__name__) from None
        raise


def rdrob(y, x, **kw):
    from rdrobust import rdrobust
    return guarded(lambda: rdrobust(y=y, x=x, **kw))


def features(o, t, sc, X):
    z = {"cutoff": [t], "cutoff and score": [t, sc], "interacted cutoff and score": [t, t * sc, sc]}[o.s["fs"]]
    return np.column_stack([np.asarray(v, dtype=float) * np.ones(len(X)) for v in z] + [X])


def kernel(o, h):
    s = o.s["kern"]
    return cauchy(o.sc_u, h) if s == "call" else KERNELS[s.lower()](o.sc_u, h)


def folds_of(o, events, tag, k, r, it):
    """test sets [rep][iteration][fold] from the recorded fits."""
    ev = [e for e in events if e["tag"] == tag]
    ensure(len(ev) == k * r * it, f"{len(ev)} fits of ml_{tag}, expected {k * r * it}")
    nz = {"cutoff": 1, "cutoff and score": 2, "interacted cutoff and score": 3}[o.s["fs"]]
    out = []
    ids = lambda X: np.round(X[:, nz] * o.n).astype(int)  # noqa: E731
    for i in range(r):
        rep = []
        for j in range(it):
            row = []
            for e in ev[(i * it + j) * k:(i * it + j + 1) * k]:
                ensure(len(e["pred"]) >= 1, "a first stage fit is not used")
                te = np.unique(np.concatenate([ids(x) for x in e["pred"]]))
                tr = ids(e["X"])
                ensure(len(np.intersect1d(tr, te)) == 0, "a first stage prediction is made for a row of its own training sample")
                ensure(len(np.unique(tr)) == len(tr) == o.n - len(te), "training sample is not the complement of the test fold")
                row.append((te, tr, e))
            allte = np.sort(np.concatenate([t for t, _, _ in row]))
            ensure(np.array_equal(allte, np.arange(o.n)), "the test folds of a repetition do not partition the sample")
            rep.append(row)
        for j in range(1, it):
            for a, b in zip(rep[0], rep[j]):
                ensure(np.array_equal(a[0], b[0]), "iterations use different folds")
        out.append(rep)
    return out


@sub("estimate", CASE, quick=420)
def estimate(spec, cx):
    o = RD(spec)
    s = spec
    df = o.frame()
    # the score as the user sees it
    o.sc_u = df["s"].to_numpy() - o.c
    LOG.clear()
    m = guarded(lambda: o.model(df))
    if s["h"] is None:
        from rdrobust import rdbwselect
        h0 = guarded(lambda: rdbwselect(y=o.Y, x=o.sc_u, fuzzy=o.D if s["fuzzy"] else None)).bws.values.max()
    else:
        h0 = s["h"]
    close(m.h_fs, h0, "initial bandwidth", 1e-9)
    w0 = kernel(o, h0)
    close(m.w, w0, "initial weights", 1e-9)
    ensure(len(LOG) == 0, "construction fits learners")
    ensure(guarded(lambda: m.fit(n_iterations=s["it"])) is m, "fit does not return the object")
    events = list(LOG)
    k, r, it = s["k"], s["r"], s["it"]
    tags = ["g"] + (["m"] if s["fuzzy"] else [])
    ensure({e["tag"] for e in events} == set(tags), f"fitted learners {set(e['tag'] for e in events)}")
    F = {t: folds_of(o, events, t, k, r, it) for t in tags}
    t = (o.sc_u >= 0) * 1.0
    Z = features(o, t, o.sc_u, o.X)
    L = features(o, 0.0, 0.0, o.X)
    R = features(o, 1.0, 0.0, o.X)
    if s["fs"] == "interacted cutoff and score":
        R[:, 1] = 0.0
    C, S, H, CI, N = np.zeros((3, r)), np.zeros((3, r)), np.zeros(r), np.zeros((3, 2, r)), np.zeros(r)
    for i in range(r):
        w, h, b = w0, None, None
        for j in range(it):
            M = {}
            for tag in tags:
                target = o.Y if tag == "g" else o.D
                cls = tag == "m" or s["ybin"] == 1
                eta = np.full(o.n, np.nan)
                for f, (te, tr, e) in enumerate(F[tag][i][j]):
                    ensure(np.array_equal(te, F["g"][i][0][f][0]), "outcome and treatment adjustment use different folds")
                    close(e["X"], Z[tr], "training features of the first stage", 1e-12)
                    close(e["y"], target[tr], "training targets of the first stage", 1e-12)
                    ensure(e["w"] is not None, "first stage without weights")
                    close(e["w"], w[tr], f"first stage weights, iteration {j}", 1e-7, 1e-9)
                    mod = (AffCls if cls else AffReg)(alpha=s["al"] * (2 if tag == "m" else 1)).fit(Z[tr], target[tr], w[tr])
                    pr = (lambda v: mod.predict_proba(v)[:, 1]) if cls else mod.predict
                    eta[te] = (pr(L[te]) + pr(R[te])) / 2
                M[tag] = target - eta
            kw = dict(s["kw"])
            if s["fuzzy"]:
                kw["fuzzy"] = M["m"]
            if j < it - 1:
                res = rdrob(M["g"], o.sc_u, **kw)
                h, b = res.bws.loc["h"].max(), res.bws.loc["b"].max()
                w = kernel(o, h)
            else:
                res = rdrob(M["g"], o.sc_u, h=h, b=b, **kw)
                H[i] = res.bws.loc["h"].max() if h is None else h
        C[:, i], S[:, i] = res.coef.values[:, 0], res.se.values[:, 0]
        CI[:, :, i] = res.ci.values
        N[i] = np.sum(res.N_h)
    if not (np.all(np.isfinite(C)) and np.all(np.isfinite(S)) and np.all(S > 0)) or S.max() > 1e4:
        raise Skip("degenerate estimate")
    tol = 1e-5
    close(m.all_coef, C, "estimates of the repetitions", tol, 1e-7)
    close(m.all_se, S, "standard errors of the repetitions", tol, 1e-7)
    close(m.h, H, "final bandwidths", tol)
    coef = np.median(C, axis=1)
    se = np.sqrt(np.median(S ** 2 + (C - coef[:, None]) ** 2 / N, axis=1))
    close(m.coef, coef, "estimate", tol, 1e-7)
    close(m.se, se, "standard error", tol, 1e-7)
    close(m.ci, np.median(CI, axis=2), "interval", tol, 1e-6)
    close(m.t_stat, coef / se, "t statistic", 1e-4, 1e-6)
    close(m.pval, 2 * norm.sf(np.abs(coef / se)), "p value", 1e-2, 1e-9)
    for level in (0.95, 0.8, 0.99):
        q = norm.ppf(1 - (1 - level) / 2)
        ci = m.confint(level)
        close(ci.to_numpy(), np.column_stack((np.median(C - q * S, axis=1), np.median(C + q * S, axis=1))), f"confint({level})", tol, 1e-6)
        ensure(list(ci.index) == ["Conventional", "Bias-Corrected", "Robust"], f"rows {list(ci.index)}")
        ensure(list(ci.columns) == [f"{100 * (1 - level) / 2:.1f} %", f"{100 * (1 + level) / 2:.1f} %"], f"columns {list(ci.columns)}")
    txt = str(m)
    for v in (f"{m.coef[0]:.3f}", f"{m.se[0]:.3f}", f"[{m.ci[2, 0]:.3f}, {m.ci[2, 1]:.3f}]", "Fuzzy" if s["fuzzy"] else "Sharp", str(o.c)):
        ensure(v in txt, f"{v!r} missing in the printed summary")
    # fitting again gives the same
    guarded(lambda: m.fit(n_iterations=it))
    close(m.all_coef, C, "estimates after refitting", tol, 1e-7)
    close(m.coef, coef, "estimate after refitting", tol, 1e-7)
    cx.label("fuzzy" if s["fuzzy"] else "sharp", s["fs"], str(s["kern"]), f"it={it}", f"r={r}", "h given" if s["h"] else "h chosen")
    cx.nontrivial(np.any(w0[t == 0] > 0) and np.any(w0[t == 1] > 0))


HOW = ["shift", "ints", "outcome", "scale", "mirror"]


@sub("symmetry", st.fixed_dictionaries({"c": CASE, "how": st.sampled_from(HOW), "v": st.sampled_from([2.0, -1.0, 16.0, 0.5])}), quick=300)
def symmetry(spec, cx):
    o = RD(spec["c"])
    s, how, v = o.s, spec["how"], spec["v"]
    c = float(np.round(o.c))
    o.c = c
    if how in ("ints",):
        o.Y = np.round(o.Y * 4)
        if len(np.unique(o.Y)) < 2:
            raise Skip("one class")
        s["ybin"] = 0 if set(np.unique(o.Y)) - {0, 1} else s["ybin"]
    if how in ("outcome", "mirror") and s["ybin"]:
        raise Skip("binary outcome")
    if how == "scale" and s["fs"] != "cutoff":
        s["fs"] = "cutoff"
    if how == "mirror" and np.any(o.sc == 0):
        o.sc = o.sc + 1 / 256
    one = guarded(lambda: o.model(o.frame(), spy=False).fit(n_iterations=s["it"]))
    mult, hm = 1.0, 1.0
    kw = {}
    if how == "shift":
        df, kw = o.frame(c=c + 8 * v), dict(c=c + 8 * v)
    elif how == "ints":
        df = o.frame().astype({"y": "int64", "d": "int8" if v > 0 else "int64"})
        kw = dict(c=int(c))
    elif how == "outcome":
        df, mult = o.frame(Y=7.0 + v * o.Y), v
    elif how == "scale":
        v = abs(v)
        df, hm = o.frame(sc=v * o.sc, c=v * c), v
        kw = dict(c=v * c, h=None if s["h"] is None else v * s["h"])
    else:
        s["fs"] = "cutoff"
        one = guarded(lambda: o.model(o.frame(), spy=False).fit(n_iterations=s["it"]))
        df = o.frame(sc=-o.sc, c=-c, D=1 - o.D)
        kw, mult = dict(c=-c), -1.0
    two = guarded(lambda: o.model(df, spy=False, **kw).fit(n_iterations=s["it"]))
    if not np.all(np.isfinite(one.all_se)) or one.all_se.max() > 1e3 * np.std(o.Y):
        raise Skip("degenerate estimate")
    tol, at = 1e-5, 1e-6 * abs(mult) * max(1, np.abs(o.Y).max())
    if how == "mirror" and s["kw"].get("vce", "nn") == "nn" and s["grid"]:
        raise Skip("tied scores")
    close(two.h, hm * one.h, how + ": bandwidths", tol)
    close(two.h_fs, hm * one.h_fs, how + ": initial bandwidth", tol)
    close(two.w, one.w, how + ": weights", tol, 1e-7)
    close(two.all_coef, mult * one.all_coef, how + ": estimates of the repetitions", tol, at)
    close(two.all_se, abs(mult) * one.all_se, how + ": standard errors of the repetitions", tol, at)
    close(two.coef, mult * one.coef, how + ": estimates", tol, at)
    close(two.se, abs(mult) * one.se, how + ": standard errors", tol, at)
    ci = one.ci * mult
    close(two.ci, ci if mult > 0 else ci[:, ::-1], how + ": intervals", tol, at)
    cx.label(how, "fuzzy" if s["fuzzy"] else "sharp", s["fs"])
    cx.nontrivial()


@sub("extra", CASE, quick=60)
def extra(spec, cx):
    """A learner for the treatment in a sharp design is ignored; a model is usable without fit; one-sided settings warn."""
    o = RD({**spec, "fuzzy": False})
    df = o.frame()
    one = guarded(lambda: o.model(df, spy=False))
    ensure("fit" in str(one), "printed summary of an unfitted model")
    guarded(lambda: one.fit(n_iterations=1))
    data = dml.DoubleMLData(df, "y", "d", o.xn, s_col="s")
    g = (AffCls if spec["ybin"] == 1 else AffReg)(alpha=spec["al"])

    def other():
        np.random.seed(7)
        return RDFlex(data, g, AffCls(), fuzzy=False, cutoff=o.c, n_folds=spec["k"], n_rep=spec["r"], h_fs=spec["h"], fs_specification=spec["fs"],
                      fs_kernel=o.kern, **spec["kw"]).fit(n_iterations=1)
    two = guarded(other)
    if not np.all(np.isfinite(one.all_se)):
        raise Skip("degenerate estimate")
    close(two.all_coef, one.all_coef, "sharp design with a superfluous learner", 1e-9)
    # exchanging treated and untreated is noticed
    flip = o.frame(D=1 - o.D)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        try:
            o.model(flip, spy=False)
        except Exception:
            raise Skip("rdrobust fails")
    ensure(any("wrong side" in str(w.message) for w in wl), "no warning although only observations left of the cutoff are treated")
    cx.nontrivial()
