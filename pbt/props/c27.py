"""C27: wrapper and placeholder learners."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import clone, is_classifier, is_regressor
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import GradientBoostingRegressor, RandomForestClassifier, RandomForestRegressor, StackingClassifier, StackingRegressor
from sklearn.exceptions import NotFittedError
from sklearn.linear_model import ElasticNet, Lasso, LinearRegression, LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

import doubleml as dml
from doubleml.rdd import RDFlex
from doubleml.utils import DMLDummyClassifier, DMLDummyRegressor, GlobalClassifier, GlobalRegressor

from .. import common, gen
from ..core import Skip, close, ensure, raises, same, sub
from ..learners import AffCls, AffReg, Cls, Reg
from . import c07, c25

RULE = """A case is a base learner with parameters, training and prediction data in some form (array, table, integers, single column), weights
(none, positive, zero for part of the sample, extreme) and, for classifiers, the labels; or a model with wrapped or placeholder learners.
Non-trivial: at least two different weights or classes and predictions that differ between rows."""
ASSUMPTIONS = ["finite, single-output data", "base learners are deterministic given their random_state"]

REG = {"ols": lambda a: LinearRegression(), "ridge": lambda a: Ridge(alpha=a), "lasso": lambda a: Lasso(alpha=a / 10), "enet": lambda a: ElasticNet(alpha=a / 10),
       "tree": lambda a: DecisionTreeRegressor(max_depth=2 + int(a), random_state=3), "rf": lambda a: RandomForestRegressor(n_estimators=5, max_depth=3, random_state=1),
       "gb": lambda a: GradientBoostingRegressor(n_estimators=5, random_state=0), "knn": lambda a: KNeighborsRegressor(n_neighbors=3),
       "pipe": lambda a: make_pipeline(StandardScaler(), Ridge(alpha=a)), "own": lambda a: Reg(alpha=a), "global": lambda a: GlobalRegressor(Ridge(alpha=a))}
CLS = {"logit": lambda a: LogisticRegression(C=1 / a), "tree": lambda a: DecisionTreeClassifier(max_depth=2 + int(a), random_state=3), "nb": lambda a: GaussianNB(),
       "rf": lambda a: RandomForestClassifier(n_estimators=5, max_depth=3, random_state=1), "knn": lambda a: KNeighborsClassifier(n_neighbors=3),
       "pipe": lambda a: make_pipeline(StandardScaler(), LogisticRegression(C=1 / a)), "prior": lambda a: DummyClassifier(strategy="prior"),
       "global": lambda a: GlobalClassifier(LogisticRegression(C=1 / a))}
LABELS = [[0, 1], [1, 0], [1, 2], [0.0, 1.0], ["a", "b"], [-1, 1], [0, 1, 2], [3, 7, 5], ["x", "z", "y"], [True, False]]


def weights(rng, kind, n):
    return {"none": None, "pos": rng.uniform(0.1, 3, n), "zero": (np.arange(n) % 3 == 0) * 1.0, "huge": 10.0 ** rng.integers(-8, 9, n), "one": np.ones(n),
            "list": list(rng.uniform(0.1, 3, n)), "int": rng.integers(0, 4, n)}[kind]


def shape_of(rng, form, n, p):
    X = rng.normal(size=(n, p))
    if form == "int":
        return rng.integers(-3, 4, size=(n, p))
    if form == "frame":
        return pd.DataFrame(X, columns=[f"v{i}" for i in range(p)], index=np.arange(n) + 5)
    if form == "f32":
        return X.astype(np.float32)
    if form == "fortran":
        return np.asfortranarray(X)
    return X


@sub("wrapped", st.fixed_dictionaries({"cls": st.booleans(), "b": st.integers(0, 50), "a": st.sampled_from([0.1, 1.0, 5.0]), "n": st.integers(12, 60), "p": st.integers(1, 4),
                                       "form": st.sampled_from(["arr", "arr", "int", "frame", "f32", "fortran"]), "w": st.sampled_from(["none", "pos", "zero", "huge", "one", "list", "int"]),
                                       "lab": st.sampled_from(LABELS), "s": gen.SEED}), quick=700)
def wrapped(spec, cx):
    rng = np.random.default_rng(spec["s"])
    n, p, a, cl = spec["n"], spec["p"], spec["a"], spec["cls"]
    B = CLS if cl else REG
    nm = sorted(B)[spec["b"] % len(B)]
    base = B[nm](a)
    X, Xn = shape_of(rng, spec["form"], n, p), shape_of(rng, spec["form"], 17, p)
    if cl:
        lab = spec["lab"]
        y = np.array([lab[i] for i in np.concatenate([np.arange(len(lab)), rng.integers(0, len(lab), n - len(lab))])])
    else:
        y = np.round(np.asarray(X)[:, 0] * 2 + rng.normal(size=n), 3)
        if spec["form"] == "int":
            y = np.round(y).astype(int)
    w = weights(rng, spec["w"], n)
    keep = [copy.deepcopy(v) for v in (X, y, w, Xn)]
    G = GlobalClassifier if cl else GlobalRegressor
    g = G(base)
    ensure(is_classifier(g) == cl and is_regressor(g) == (not cl), "kind of learner")
    raises(NotFittedError, lambda: g.predict(Xn), "prediction before fit")
    if cl:
        raises(NotFittedError, lambda: g.predict_proba(Xn), "probabilities before fit")
    before = repr(sorted((k, repr(v)) for k, v in vars(base).items()))
    if spec["s"] % 2:
        g.fit(X + 1 if spec["form"] != "frame" else X, y[::-1])    # an earlier fit must not matter
    out = g.fit(X, y, sample_weight=w) if spec["s"] % 3 else g.fit(X, y, w)
    ensure(out is g, "fit does not return the learner")
    ensure(g.base_estimator is base and repr(sorted((k, repr(v)) for k, v in vars(base).items())) == before, "the base learner was changed")
    ref = clone(base).fit(X, y)
    same(np.asarray(g.predict(Xn)), np.asarray(ref.predict(Xn)), f"{nm}: predictions")
    pr = ref.predict(Xn)
    if cl:
        same(g.predict_proba(Xn), ref.predict_proba(Xn), f"{nm}: probabilities")
        same(np.asarray(g.classes_), np.asarray(ref.classes_), f"{nm}: classes")
        pr = ref.predict_proba(Xn)[:, 0]
    ensure(g.n_features_in_ == p, "number of features")
    if hasattr(g, "score"):
        close(g.score(X, y), ref.score(X, y), "score", 1e-12)
    h = clone(g)
    ensure(h is not g and h.base_estimator is not base and type(h.base_estimator) is type(base), "clone")
    raises(NotFittedError, lambda: h.predict(Xn), "clone is fitted")
    same(np.asarray(h.fit(X, y).predict(Xn)), np.asarray(ref.predict(Xn)), "clone: predictions")
    ensure(set(g.get_params(deep=True)) >= {"base_estimator"} | {"base_estimator__" + k for k in base.get_params(deep=True)}, "nested parameters")
    if nm in ("ridge", "lasso", "enet"):
        h.set_params(base_estimator__alpha=0.37).fit(X, y, sample_weight=w)
        same(h.predict(Xn), clone(base).set_params(alpha=0.37).fit(X, y).predict(Xn), "predictions after setting a parameter of the base learner")
        ensure(base.get_params()["alpha"] != 0.37, "parameters of the original base learner changed")
    for u, v in zip((X, y, w, Xn), keep):
        same(u, v, "training data or weights changed")
    raises((ValueError,), lambda: clone(g).fit(X, y, sample_weight=np.ones(n + 1)), "weights of the wrong length")
    raises((ValueError,), lambda: G(REG["ols"](a) if cl else CLS["logit"](a)).fit(X, y), "base learner of the wrong kind")
    cx.label(("cls:" if cl else "reg:") + nm, "w:" + spec["w"], spec["form"])
    cx.nontrivial(np.ptp(np.asarray(pr, dtype=float)) > 0 if nm != "prior" else True)


def wrap(v):
    return GlobalClassifier(v) if isinstance(v, Cls) else GlobalRegressor(v)


ANY = st.one_of(gen.specs(max_k=3, max_r=2), gen.specs(kinds=("plr", "pliv"), cluster=(1, 2), max_k=2))


@sub("in_models", st.fixed_dictionaries({"c": ANY}), quick=300)
def in_models(spec, cx):
    """A model with wrapped learners is the model with the learners themselves."""
    c = common.need_cells(gen.Case(spec["c"]))
    a, b = c.make(data=c.data()), c.make(data=c.data(), learners={k: wrap(v) for k, v in c.learners.items()})
    ra, rb = c07.fit(a), c07.fit(b)
    ensure(ra == rb, "root search")
    close(b.all_coef, a.all_coef, f"{c.kind}: estimates with wrapped learners", 1e-9, 1e-10)
    close(b.all_se, a.all_se, f"{c.kind}: standard errors with wrapped learners", 1e-9, 1e-10)
    for nm in c.nuis_names():
        close(b.predictions[nm], a.predictions[nm], f"{c.kind}: predictions {nm} with wrapped learners", 1e-9, 1e-10)
    cx.label(c.kind)
    cx.nontrivial(np.all(np.asarray(a.se) > 0))


class NoWeight:
    """Mixin: accepts weights and does not use them."""

    def fit(self, X, y, sample_weight=None):
        return super().fit(X, y)


class PlainReg(NoWeight, AffReg):
    pass


class PlainCls(NoWeight, AffCls):
    pass


@sub("in_rdd", c25.CASE, quick=60)
def in_rdd(spec, cx):
    """The use the wrappers are made for: a first stage that is global although the design weights observations."""
    o = c25.RD({**spec, "it": min(spec["it"], 2)})
    df = o.frame()
    data = dml.DoubleMLData(df, "y", "d", o.xn, s_col="s")

    def run(g, m):
        np.random.seed(7)
        return RDFlex(data, g, m if spec["fuzzy"] else None, fuzzy=spec["fuzzy"], cutoff=o.c, n_folds=spec["k"], n_rep=spec["r"], h_fs=spec["h"],
                      fs_specification=spec["fs"], fs_kernel=o.kern, **spec["kw"]).fit(n_iterations=min(spec["it"], 2))
    cb = spec["ybin"] == 1
    one = c25.guarded(lambda: run(PlainCls() if cb else PlainReg(), PlainCls()))
    two = c25.guarded(lambda: run(GlobalClassifier(AffCls()) if cb else GlobalRegressor(AffReg()), GlobalClassifier(AffCls())))
    if not np.all(np.isfinite(one.all_se)):
        raise Skip("degenerate estimate")
    close(two.all_coef, one.all_coef, "estimates with wrapped learners", 1e-7, 1e-9)
    close(two.all_se, one.all_se, "standard errors with wrapped learners", 1e-7, 1e-9)
    if spec["seed"] % 3 == 0:
        st_ = StackingRegressor([("g", GlobalRegressor(Ridge())), ("l", Ridge())], final_estimator=Ridge(), cv=2)
        sc = StackingClassifier([("g", GlobalClassifier(LogisticRegression())), ("l", LogisticRegression())], final_estimator=LogisticRegression(), cv=2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = c25.guarded(lambda: RDFlex(data, sc if cb else st_, sc if spec["fuzzy"] else None, fuzzy=spec["fuzzy"], cutoff=o.c, n_folds=2, h_fs=3.0).fit(n_iterations=1))
        ensure(m.coef is not None, "stacked wrappers")
    cx.label("fuzzy" if spec["fuzzy"] else "sharp")
    cx.nontrivial()


@sub("tuning", st.fixed_dictionaries({"s": gen.SEED, "n": st.integers(40, 90), "k": st.integers(2, 3), "fold": st.booleans(), "irm": st.booleans()}), quick=60)
def tuning(spec, cx):
    """Parameters of the base learner can be tuned and set through a model."""
    rng = np.random.default_rng(spec["s"])
    n = spec["n"]
    X = rng.normal(size=(n, 3))
    d = (rng.random(n) < 0.5) * 1.0 if spec["irm"] else X[:, 0] + rng.normal(size=n)
    y = d + X[:, 1] + rng.normal(size=n)
    data = dml.DoubleMLData.from_arrays(X, y, d)
    grid = [0.01, 1.0, 30.0]

    def build(w):
        f = (lambda v: v) if not w else (lambda v: GlobalClassifier(v) if is_classifier(v) else GlobalRegressor(v))
        np.random.seed(3)
        if spec["irm"]:
            return dml.DoubleMLIRM(data, f(Ridge()), f(LogisticRegression()), n_folds=spec["k"])
        return dml.DoubleMLPLR(data, f(Ridge()), f(Ridge()), n_folds=spec["k"])
    pre = "base_estimator__"
    g = {"ml_g" if spec["irm"] else "ml_l": {"alpha": grid}, "ml_m": {"C" if spec["irm"] else "alpha": grid}}
    gw = {k: {pre + q: v for q, v in u.items()} for k, u in g.items()}
    a, b = build(False), build(True)
    np.random.seed(5)
    a.tune(g, tune_on_folds=spec["fold"], n_folds_tune=3)
    np.random.seed(5)
    b.tune(gw, tune_on_folds=spec["fold"], n_folds_tune=3)

    def strip(o):
        if isinstance(o, dict):
            return {(k[len(pre):] if isinstance(k, str) and k.startswith(pre) else k): strip(v) for k, v in o.items()}
        return [strip(v) for v in o] if isinstance(o, list) else o
    same(strip(b.params), a.params, "tuned parameters")
    a.fit()
    b.fit()
    close(b.all_coef, a.all_coef, "estimates after tuning", 1e-9)
    close(b.all_se, a.all_se, "standard errors after tuning", 1e-9)
    cx.nontrivial()


DUM = st.one_of(gen.specs(kinds=common.EXTERNAL, max_k=3, max_r=2), gen.specs(kinds=("pq", "lpq"), max_k=2), gen.specs(kinds=("plr", "pliv"), cluster=(1, 2), max_k=2))


@sub("placeholders", st.fixed_dictionaries({"c": DUM, "s": gen.SEED}), quick=250)
def placeholders(spec, cx):
    """Any model accepts placeholders; with all predictions supplied they give the same estimates; without, fit is refused."""
    c = common.need_cells(gen.Case(spec["c"]))
    if c.kind == "pliv" and c.o["var"] in ("z", "zm", "xz", "xzm"):
        raise Skip("no external predictions")
    D = {k: DMLDummyClassifier() if isinstance(v, Cls) else DMLDummyRegressor() for k, v in c.learners.items()}
    m = c.make(data=c.data(), learners=D)
    for v in list(D.values()):
        k = clone(v)
        ensure(type(k) is type(v) and k is not v, "clone of a placeholder")
        ensure(is_classifier(k) == isinstance(k, DMLDummyClassifier) and is_regressor(k) == isinstance(k, DMLDummyRegressor), "kind of a placeholder")
        refuse = (AttributeError, TypeError)
        raises(refuse, lambda: k.fit(c.X, c.Y), "placeholder is fitted")
        raises(refuse, lambda: k.predict(c.X), "placeholder predicts")
        raises(refuse, lambda: k.set_params(alpha=1), "placeholder is configured")
        if is_classifier(k):
            raises(refuse, lambda: k.predict_proba(c.X), "placeholder predicts")
    raises((AttributeError, TypeError), lambda: m.fit(), "fit with placeholders")
    if c.kind in ("pq", "lpq"):
        ext = c07.ext_of(c, spec["s"])
    else:
        ext = common.external(c, seed=spec["s"], extreme=False)
    a, b = c.make(data=c.data()), c.make(data=c.data(), learners=D)
    wa, wb = c07.fit(a, external_predictions=ext), c07.fit(b, external_predictions=ext)
    ensure(wa == wb, "root search")
    close(b.all_coef, a.all_coef, f"{c.kind}: estimates with placeholders", 1e-10)
    close(b.all_se, a.all_se, f"{c.kind}: standard errors with placeholders", 1e-10)
    cx.label(c.kind)
    cx.nontrivial(np.all(np.asarray(a.se) > 0))
