"""C28: invalid requests are refused and leave the object unchanged."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import doubleml as dml
from doubleml.double_ml_framework import DoubleMLFramework, concat
from doubleml.rdd import RDFlex
from doubleml.utils.blp import DoubleMLBLP
from doubleml.utils.policytree import DoubleMLPolicyTree

from .. import common, fw, gen
from ..core import Fail, Skip, ensure, sub
from ..frozen import equal, freeze
from ..learners import Cls, Reg
from . import c25

RULE = """A case is an object (every single model, potential-outcome and quantile composites, result objects, best linear predictors, policy
trees, discontinuity designs) brought to a random point of its life (fresh, fitted, bootstrapped, sensitivity analysed, tuned), and a list
of requests outside the documented domain (wrong type, outside the range, unknown names, wrong shapes, method before its prerequisite).
Each must raise a type, value or not-implemented error; afterwards every public property, and everything a common continuation (fit,
bootstrap, intervals, sensitivity analysis) computes, equals that of a copy that never received the request. Non-trivial: at least one
request on an object that has results, or a continuation that produces results."""
ASSUMPTIONS = ["True/False are accepted where integers are expected (bool is a subclass of int)",
               "set_ml_nuisance_params refuses lists of the wrong length with an assertion", "PolicyTree.predict refuses unknown columns with a KeyError",
               "composites check the numbers of folds and repetitions when they draw a splitting",
               "continuations agree up to 1e-6 (copies may differ in memory layout)", "numpy booleans are not booleans, numpy floats are floats"]

ERR = (TypeError, ValueError, NotImplementedError)
NAN = float("nan")
INF = float("inf")
LEVEL = [0.0, 1.0, -0.1, 1.5, NAN, INF, 1, 0, "0.95", None, [0.95]]
CF = [-0.1, 1.0, 1.2, 1, 0, "0.1", None, NAN, INF, [0.1]]
RHO = [1, 0, "1", 1.5, -1.5, NAN, None, INF, [1.0]]
BOOLS = [1, 0, "True", None, 1.0, np.bool_(True)]
POS = [0, -1, -7, 2.0, "5", None, 2.5, NAN, [3]]
NULLH = [0, 1, "0", None, [0.0], np.zeros((1, 1)), np.zeros(17)]
TRIM = [0.0, 0.5, -0.1, 0.6, 1, 0, "0.1", None, NAN, INF]
QUANT = [0.0, 1.0, -0.2, 1.3, 1, 0, "0.5", None, NAN, INF]
JOBS = ["2", 1.5, [1], NAN]


def bad(v):
    """A request must not be refused merely because the value cannot be printed or compared."""
    return v


def split_requests(c, m):
    n = c.n
    sm = [[(tr, te) for tr, te in s] for s in c.smpls]
    a = [5, "x", None, {"a": 1}, np.arange(n), (np.arange(n),), [np.arange(n)], [[np.arange(n)]]]
    # missing test observation, duplicate, out of range, float, overlap, unequal folds
    one = [list(s) for s in sm]
    tr, te = one[0][0]
    a.append([[(tr, te[1:])] + one[0][1:]] + one[1:])
    a.append([[(tr, np.append(te, te[0]))] + one[0][1:]] + one[1:])
    a.append([[(np.append(tr, tr[0]), te)] + one[0][1:]] + one[1:])
    a.append([[(np.append(tr, n), te)] + one[0][1:]] + one[1:])
    a.append([[(np.append(tr, -1), te)] + one[0][1:]] + one[1:])
    a.append([[(tr.astype(float), te)] + one[0][1:]] + one[1:])
    a.append([[(np.append(tr, te[0]), te)] + one[0][1:]] + one[1:])
    a.append([[(tr, te, te)] + one[0][1:]] + one[1:])
    a.append(one + [one[0][:-1]])
    a.append([one[0], tuple(one[0])])
    a.append((tr, te))
    if not c.cl:
        return [("set_sample_splitting", lambda v=v: m.set_sample_splitting(v)) for v in a]
    smc = [[(list(x), list(y)) for x, y in s] for s in c.smpls_cluster]
    b = [None, smc[:-1], [s[:-1] for s in smc]]
    x, y = smc[0][0]
    b.append([[([x[0][1:]] + x[1:], y)] + smc[0][1:]] + smc[1:])
    b.append([smc[0][:-1] + [([np.append(smc[0][-1][0][0], smc[0][-1][1][0][0])] + smc[0][-1][0][1:], smc[0][-1][1])]] + smc[1:])
    return ([("set_sample_splitting", lambda v=v: m.set_sample_splitting(v, c.smpls_cluster)) for v in a]
            + [("set_sample_splitting (clusters)", lambda v=v: m.set_sample_splitting(c.smpls, v)) for v in b])


def ext_requests(c, m):
    d, nm = c.dn[0], c.nuis_names()[0]
    last = c.dn[-1]
    full = common.external(c, seed=1, extreme=False)
    ok = full[d][nm]
    vals = [1, "x", [1], np.ones(c.n), {"nope": {nm: ok}}, {d: 3}, {d: [ok]}, {d: {"ml_nope": ok}}, {d: {nm: ok.tolist()}}, {d: {nm: None}},
            {d: {nm: ok[:, 0]}}, {d: {nm: ok[1:]}}, {d: {nm: np.column_stack((ok, ok))}}, {d: {nm: pd.DataFrame(ok)}}]
    nl = c.nuis_names()[-1]
    vals += [{**full, last: {**full[last], nl: full[last][nl][1:]}}, {**full, last: {**full[last], nl: full[last][nl].tolist()}}]
    return [("fit(external_predictions)", lambda v=v: m.fit(external_predictions=v)) for v in vals]


def has_ext(c):
    return c.kind in common.EXTERNAL and c.kind != "ssm" and not (c.kind == "pliv" and c.o["var"] in ("z", "zm", "xz", "xzm"))


def has_sens(c):
    return c.kind in ("plr", "irm", "apo", "did", "didcs") and not str(c.o.get("score", "")).startswith("callable")


def sens_requests(obj, p, P=None):
    kw = [("cf_y", v) for v in CF] + [("cf_d", v) for v in CF] + [("rho", v) for v in RHO] + [("level", v) for v in LEVEL] + [
        ("null_hypothesis", v) for v in NULLH if not (isinstance(v, np.ndarray) and v.shape == (p,))]
    return [(f"sensitivity_analysis({k})", lambda k=k, v=v: obj.sensitivity_analysis(**{k: v})) for k, v in kw]


def plot_requests(obj, p, scen):
    kw = [{"idx_treatment": v} for v in (-1, p, 1.0, "0", None)] + [{"value": v} for v in ("x", 1, None, "thetas")]
    kw += [{"null_hypothesis": v} for v in (0, "0", None)] + [{"include_scenario": v} for v in BOOLS] + [{"fill": v} for v in BOOLS]
    kw += [{"grid_bounds": v} for v in ((0.0, 0.1), (0.1, 1.0), (1, 0.1), (-0.1, 0.1), (0.1, NAN), ("a", 0.1))] + [{"grid_size": v} for v in (9, 0, -3, 10.0, "20", None)]
    good = {"cf_y": [0.1], "cf_d": [0.2], "name": ["a"]}
    kw += [{"benchmarks": v} for v in (1, [0.1], {"cf_y": [0.1]}, {**good, "extra": [1]}, {**good, "cf_y": [0.1, 0.2]}, {**good, "cf_y": [1.0]}, {**good, "cf_d": [-0.1]},
                                       {**good, "cf_d": [1]}, {**good, "cf_y": [NAN]}, {**good, "name": [1]})]
    if not scen:
        kw += [{"include_scenario": True}, {}]
    return [(f"sensitivity_plot({list(k)})", lambda k=k: obj.sensitivity_plot(**{"include_scenario": False, **k} if k else {})) for k in kw]


def inf_requests(m, boot, cluster):
    """Requests on an object with results (models, composites, result objects)."""
    out = [("confint(level)", lambda v=v: m.confint(level=v)) for v in LEVEL] + [("confint(joint)", lambda v=v: m.confint(joint=v)) for v in BOOLS]
    if not boot:
        out += [("confint(joint) before bootstrap", lambda: m.confint(joint=True))]
    if cluster:
        out += [("bootstrap (clustered)", lambda: m.bootstrap(n_rep_boot=5))]
    out += [("bootstrap(method)", lambda v=v: m.bootstrap(method=v, n_rep_boot=7)) for v in ("unknown", "NORMAL", 1, None, "bayes")]
    out += [("bootstrap(n_rep_boot)", lambda v=v: m.bootstrap(n_rep_boot=v)) for v in POS]
    if hasattr(m, "p_adjust"):
        out += [("p_adjust", lambda v=v: m.p_adjust(method=v)) for v in (1, None, "unknown", 2.0, ["holm"])]
        if not boot:
            out += [("p_adjust before bootstrap", lambda v=v: m.p_adjust(method=v)) for v in ("romano-wolf", "rw")]
    return out


def before_fit(m):
    out = [("bootstrap before fit", lambda: m.bootstrap()), ("confint before fit", lambda: m.confint())]
    if hasattr(m, "p_adjust"):
        out += [("p_adjust before fit", lambda v=v: m.p_adjust(method=v)) for v in ("romano-wolf", "bonferroni")]
    if hasattr(m, "sensitivity_analysis"):
        out += [("sensitivity_analysis before fit", lambda: m.sensitivity_analysis()), ("sensitivity_plot before fit", lambda: m.sensitivity_plot()),
                ("sensitivity_summary before", lambda: m.sensitivity_summary)]
    return out


def model_requests(c, m, life):
    """(family, list of (name, thunk)); every thunk must be refused."""
    F = {}
    fitted, boot, sens = life >= 1, life in (2, 3) and not c.cl, life == 3 and has_sens(c)
    d = c.dn[0]
    F["fit"] = ([("fit(n_jobs_cv)", lambda v=v: m.fit(n_jobs_cv=v)) for v in JOBS] + [("fit(store_predictions)", lambda v=v: m.fit(store_predictions=v)) for v in BOOLS]
                + [("fit(store_models)", lambda v=v: m.fit(store_models=v)) for v in BOOLS])
    if has_ext(c):
        F["external"] = ext_requests(c, m)
    elif c.kind in ("ssm", "cvar", "pliv"):
        F["external"] = [("fit(external_predictions) unsupported", lambda: m.fit(external_predictions={d: {c.nuis_names()[0]: np.zeros((c.n, c.r))}}))]
    F["splitting"] = split_requests(c, m)
    g = {k: {"alpha": [0.1, 1.0]} for k in m.learner_names}
    T = [("param_grids", v) for v in (None, 1, [g], {}, {k: g[k] for k in list(g)[1:]})]
    T += [("scoring_methods", v) for v in ({"ml_nope": "r2"}, "r2", ["r2"])] + [("tune_on_folds", v) for v in BOOLS] + [("n_folds_tune", v) for v in POS + [1]]
    T += [("search_mode", v) for v in ("grid", 1, None, "GRID_SEARCH")] + [("n_iter_randomized_search", v) for v in POS + [1]] + [("n_jobs_cv", v) for v in JOBS]
    T += [("set_as_params", v) for v in BOOLS] + [("return_tune_res", v) for v in BOOLS]
    F["tune"] = [(f"tune({k})", lambda k=k, v=v: m.tune(**{"param_grids": g, "n_folds_tune": 2, k: v})) for k, v in T]
    nm = m.params_names[0]
    nf = len(c.smpls[0])
    okp = [[{"alpha": 0.1}] * nf] * c.r
    F["params"] = [("set_ml_nuisance_params(learner)", lambda v=v: m.set_ml_nuisance_params(v, d, {"alpha": 1.0})) for v in ("ml_nope", "", "alpha")]
    F["params"] += [("set_ml_nuisance_params(treatment)", lambda v=v: m.set_ml_nuisance_params(nm, v, {"alpha": 1.0})) for v in ("nope", "", "X1", "y")]
    F["params"] += [("set_ml_nuisance_params(params)", lambda v=v: m.set_ml_nuisance_params(nm, d, v)) for v in
                    ([], okp + [okp[0]], [okp[0][:-1]] * c.r, [o + [{}] for o in okp])]
    F["params"] += [("get_params", lambda v=v: m.get_params(v)) for v in ("ml_nope", "", "params")]
    ev = [("evaluate_learners(metric)", lambda v=v: m.evaluate_learners(metric=v)) for v in (1, "rmse", None, [np.mean])]
    ev += [("evaluate_learners(learners)", lambda v=v: m.evaluate_learners(learners=v)) for v in (["ml_nope"], [nm, "ml_nope"])]
    F["evaluate"] = ev if fitted else ev + [("evaluate_learners before fit", lambda: m.evaluate_learners())]
    if fitted:
        F["evaluate"] += [("evaluate_learners not finite", lambda v=v: m.evaluate_learners(metric=lambda y_true, y_pred, v=v: v)) for v in (NAN, INF)]
        F["inference"] = inf_requests(m, boot, c.cl)
    else:
        F["inference"] = before_fit(m)
    if has_sens(c) and fitted:
        F["sensitivity"] = sens_requests(m, c.nt) + plot_requests(m, c.nt, sens)
        xs = m._dml_data.x_cols
        F["sensitivity"] += [("sensitivity_benchmark", lambda v=v: m.sensitivity_benchmark(v)) for v in (None, xs[0], tuple(xs), [], ["nope"], [xs[0], "y"], {"a": xs[0]}, [d])]
        F["sensitivity"] += [("sensitivity_benchmark(fit_args)", lambda v=v: m.sensitivity_benchmark([xs[0]], fit_args=v)) for v in (1, "x", [("n_jobs_cv", 1)])]
    elif fitted and not str(c.o.get("score", "")).startswith("callable"):
        F["sensitivity"] = [("sensitivity_analysis unsupported", lambda: m.sensitivity_analysis()), ("sensitivity_plot unsupported", lambda: m.sensitivity_plot()),
                            ("sensitivity_benchmark unsupported", lambda: m.sensitivity_benchmark(["X1"]))]
    if fitted and c.kind in ("plr", "irm", "apo"):
        F["heterogeneity"] = het_requests(c, m)
    if fitted:
        F["combine"] = [("construct difference", lambda v=v: m.framework - v) for v in (1, None, "x", m)] + [("product", lambda v=v: m.framework * v) for v in ("a", None, m.framework)]
    return F


def het_requests(c, m):
    rng = np.random.default_rng(0)
    n = c.n
    B = pd.DataFrame({"a": np.ones(n), "b": rng.normal(size=n)})
    G2 = pd.DataFrame({"a": rng.normal(size=n), "b": rng.normal(size=n)})
    G = pd.DataFrame({"g": np.arange(n) % 2})
    cate, gate = ("capo", "gapo") if c.kind == "apo" else ("cate", "gate")
    out = [(f"{gate}(groups)", lambda v=v: getattr(m, gate)(v)) for v in (None, np.ones(n), "g", [1, 2], G2)]
    out += [(f"{cate}(basis)", lambda v=v: getattr(m, cate)(v)) for v in (None, B.to_numpy(), "g", B.set_axis(["a", "a"], axis=1))]
    if c.kind == "irm":
        out += [("policy_tree(depth)", lambda v=v: m.policy_tree(c.df[c.xn], depth=v)) for v in (-1, 1.0, "2", None, 2.5)]
        out += [("policy_tree(features)", lambda v=v: m.policy_tree(v)) for v in (None, c.X, "x", c.df[[c.xn[0], c.xn[0]]])]
    if c.r > 1 or c.nt > 1 or (c.kind == "irm" and c.o["score"] != "ATE"):
        out += [(cate + " not available", lambda: getattr(m, cate)(B)), (gate + " not available", lambda: getattr(m, gate)(G.astype(bool)))]
        if c.kind == "irm":
            out += [("policy_tree not available", lambda: m.policy_tree(c.df[c.xn]))]
    return out


def refuse(fn, what, also=()):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn()
        except ERR + tuple(also):
            return
        except Exception as e:  # noqa: BLE001
            raise Fail(f"{what}: raised {type(e).__name__}: {str(e)[:200]} instead of a type, value or not-implemented error") from None
    raise Fail(f"{what}: accepted")


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(99)
        return f(*a, **kw)


PICKS = st.lists(st.tuples(st.integers(0, 1000), st.integers(0, 100000)), min_size=1, max_size=16)


def choose(F, picks):
    fam = sorted(F)
    for a, b in picks:
        L = F[fam[a % len(fam)]]
        if L:
            yield L[b % len(L)]


def attack(cx, twin, m, build, picks, cont, what, also=()):
    """Send the requests to m, compare everything with the twin afterwards."""
    reqs = list(choose(build(m), picks))
    if not reqs:
        raise Skip("no request applies")
    seen = set()
    for name, fn in reqs:
        w = f"{what} {name}"
        for v in fn.__defaults__ or ():
            w += " " + repr(v)[:80]
        refuse(fn, w, also)
        seen.add(name)
        cx.label(name.split("(")[0].split(" ")[0])
    a, b = freeze(m), freeze(twin)
    equal(a, b, f"{what} after refused {sorted(seen)}", 1e-10)
    for step, f in cont:
        ra, rb = quiet(f, m), quiet(f, twin)
        equal(freeze(ra), freeze(rb), f"{what} {step} after refused {sorted(seen)}", 1e-6)
        equal(freeze(m), freeze(twin), f"{what} state after {step}, with refused {sorted(seen)}", 1e-6)


OV = {"nt": st.sampled_from([1, 1, 2])}


def case(spec):
    sp = dict(spec)
    if sp["cl"] and sp["kind"] not in ("plr", "pliv", "irm"):
        sp["cl"] = 0
    return common.need_cells(gen.Case(sp))


def live(c, m, life):
    """0 fresh, 1 fitted, 2 bootstrapped, 3 with sensitivity analysis, 4 tuned and fitted."""
    if life == 4:
        quiet(m.tune, {k: {"alpha": [0.1, 1.0]} for k in m.learner_names}, n_folds_tune=2)
        quiet(m.fit)
    elif life:
        quiet(m.fit)
    if life in (2, 3) and not c.cl:
        quiet(m.bootstrap, n_rep_boot=9)
    if life == 3 and has_sens(c):
        quiet(m.sensitivity_analysis, cf_y=0.05, cf_d=0.04)


@sub("models", common.with_flag(gen.specs(cluster=(0, 0, 0, 1, 2), max_k=3, max_r=2, over=OV), life=st.integers(0, 4), picks=PICKS, go=st.integers(0, 2)), quick=700)
def models(spec, cx):
    c = case(spec["c"])
    life = spec["life"]
    if life == 4 and c.kind in ("lpq", "didcs", "ssm"):
        life = 1
    m = c.make()
    try:
        live(c, m, life)
    except ValueError as e:
        raise Skip("fit refused: " + str(e)[:40]) from None
    twin = copy.deepcopy(m)
    cont = []
    if spec["go"] or life == 0:
        cont.append(("fit", lambda o: o.fit()))
        if not c.cl and spec["go"] == 2:
            cont.append(("bootstrap", lambda o: o.bootstrap(n_rep_boot=8)))
            cont.append(("confint", lambda o: o.confint(joint=True)))
        if has_sens(c) and spec["go"] == 2:
            cont.append(("sensitivity_analysis", lambda o: o.sensitivity_analysis()))
    try:
        attack(cx, twin, m, lambda o: model_requests(c, o, life), spec["picks"], cont, c.kind, also=(AssertionError,))
    except ValueError as e:
        if life == 0 and "finite" in str(e):
            raise Skip("fit refused") from None
        raise
    cx.label(c.kind, f"life={life}", f"clusters={c.cl}")
    cx.nontrivial(life > 0 or bool(cont))


# ---------------------------------------------------------------- constructors
def ctor_requests(c):
    base = {"n_folds": [0, -1, 2.0, "3", None, NAN], "n_rep": [0, -1, 1.0, "2", None], "draw_sample_splitting": BOOLS}
    if c.kind not in ("apo", "pliv"):
        base["score"] = ["nope", "", 1, None, ["a"]] if c.kind not in ("did", "didcs", "pq", "lpq", "cvar") else ["nope", "", 1, None, ["a"], gen.call_plr]
    if c.kind == "apo":
        base["score"] = ["nope", "", 1, None, gen.call_plr]
    if c.kind in ("irm", "apo", "iivm", "ssm", "did", "didcs", "pq", "lpq", "cvar"):
        base["trimming_threshold"] = TRIM
        base["trimming_rule"] = ["discard", "", None, 1]
    if c.kind in ("irm", "apo", "iivm", "ssm", "pq", "lpq", "cvar"):
        base["normalize_ipw"] = BOOLS
    if c.kind in ("did", "didcs"):
        base["in_sample_normalization"] = BOOLS
    if c.kind in ("pq", "lpq", "cvar"):
        base["quantile"] = QUANT
        base["treatment"] = [2, -1, 0.0, 1.0, "1", None]
    if c.kind in ("pq", "lpq"):
        base["kde"] = [1, "kde", [gen.user_kde]]
    if c.kind == "iivm":
        base["subgroups"] = [1, "x", ["always_takers"], {"always_takers": True}, {"always_takers": True, "never_takers": 1}, {"always_takers": None, "never_takers": True},
                             {"always_takers": True, "never_takers": True, "more": True}]
    if c.kind in ("irm", "apo"):
        n = c.n
        w = [1.0, "w", [1.0] * n, np.ones(n + 1), np.ones((n, 1)), -np.ones(n), np.zeros(n), np.full(n, NAN)]
        if c.kind == "apo" or c.o["score"] == "ATE":
            w += [{"weights": np.ones(n)}, {"weights": np.ones(n), "weights_bar": np.ones(n)}, {"weights": np.ones(n), "weights_bar": np.ones((n, c.r + 1))},
                  {"weights": np.ones(n), "weights_bar": np.zeros((n, c.r))}, {"weights": -np.ones(n), "weights_bar": np.ones((n, c.r))},
                  {"weights": np.ones(n), "weights_bar": np.full((n, c.r), NAN)},
                  {"weights": np.ones(n), "weights_bar": np.ones((n, c.r)), "extra": 1}]
        elif c.o["score"] == "ATTE":
            w += [np.full(n, 0.5), {"weights": np.ones(n), "weights_bar": np.ones((n, c.r))}]
        base["weights"] = w
    out = [(f"{c.kind}({k})", k, v) for k, L in base.items() for v in L]
    return out


class NoFit:
    def get_params(self, deep=True):
        return {}

    def set_params(self, **k):
        return self

    def predict(self, X):
        return X


class NoPredict:
    def get_params(self, deep=True):
        return {}

    def set_params(self, **k):
        return self

    def fit(self, X, y):
        return self


def data_requests(c):
    """Data that do not fit the model."""
    n = c.n
    rng = np.random.default_rng(1)
    out = [("not a data object", lambda: c.df), ("not a data object", lambda: c.df.to_dict()), ("not a data object", lambda: (c.X, c.Y, c.D))]
    df = c.df.copy()
    binary = c.kind in ("irm", "iivm", "did", "didcs", "pq", "lpq", "cvar")
    if binary:
        d2 = df.assign(d=df["d"] * 2)
        d3 = df.assign(d=rng.normal(size=n))
        out += [("treatment labelled 0/2", lambda: c.data(d2)), ("continuous treatment", lambda: c.data(d3)), ("treatment labelled 1/2", lambda: c.data(df.assign(d=df["d"] + 1)))]
        if c.p > 1:
            out += [("two treatments", lambda: c.data(d_cols=["d", "X1"], x_cols=c.xn[1:]))]
    if c.kind in ("plr", "irm", "apo", "did", "didcs", "pq", "cvar"):
        out += [("instrument", lambda: c.data(df.assign(zz=rng.normal(size=n)), z_cols="zz"))]
    if c.kind in ("pliv", "iivm", "lpq") or (c.kind == "ssm" and c.o["score"] == "nonignorable"):
        out += [("no instrument", lambda: c.data(z_cols=None))]
    if c.kind in ("iivm", "lpq"):
        out += [("continuous instrument", lambda: c.data(df.assign(z1=rng.normal(size=n)))), ("instrument labelled 1/2", lambda: c.data(df.assign(z1=df["z1"] + 1))),
                ("two instruments", lambda: c.data(df.assign(z2=df["z1"]), z_cols=["z1", "z2"]))]
    if c.kind == "didcs":
        out += [("continuous time", lambda: c.data(df.assign(t=rng.normal(size=n)))), ("time labelled 1/2", lambda: c.data(df.assign(t=df["t"] + 1)))]
    if c.kind == "apo":
        out += [("two treatments", lambda: c.data(d_cols=["d", "X1"], x_cols=c.xn[1:]))] if c.p > 1 else []
    return out


@sub("constructors", common.with_flag(gen.specs(cluster=(0, 0, 0, 1), max_k=3, max_r=2, over=OV), what=st.sampled_from([0, 0, 1, 2]), i=st.integers(0, 100000)), quick=600)
def constructors(spec, cx):
    c = gen.Case(dict(spec["c"], cl=spec["c"]["cl"] if spec["c"]["kind"] in ("plr", "pliv", "irm") else 0))
    data = c.data()
    frame = c.df.copy(deep=True)
    before = freeze(data)
    L = c.learners
    lb = freeze(L)
    if spec["what"] == 0:
        R = ctor_requests(c)
        for key in sorted({r[1] for r in R}):  # one value of every argument
            own = [r for r in R if r[1] == key]
            name, k, v = own[spec["i"] % len(own)]
            kw = {k: v}
            if k == "score" and c.weights_arg is not None:
                kw["weights"] = None
            if k == "weights" and isinstance(v, np.ndarray) and v.shape == (c.n,) and c.kind == "irm" and c.o["score"] == "callable":
                continue  # weights with a user score
            refuse(lambda: c.make(data=data, setsmpls=False, **kw), f"{name} = {repr(v)[:80]}", also=(AssertionError,) if k == "weights" else ())
            cx.label(k)
    elif spec["what"] == 1:
        s = sorted(L)[spec["i"] % len(L)]
        opts = [Reg, Cls, NoFit(), 5, None, "ridge", NoPredict()]
        if isinstance(L[s], Cls) and not c.o.get("ybin") or s == "ml_m" and c.kind not in ("plr", "pliv"):
            opts.append(Reg())  # no predict_proba
        if s == "ml_g" and c.kind in ("irm", "apo", "iivm", "did", "didcs") and not c.o.get("ybin"):
            opts.append(Cls())  # classifier for a continuous outcome
        v = opts[(spec["i"] // 7) % len(opts)]
        if s == "ml_m" and c.kind == "didcs" or c.kind == "did":
            if s == "ml_m" and v is None:
                raise Skip("no learner for the propensity: experimental designs")
        if c.kind == "plr" and s == "ml_g" and c.o["score"] == "callable_g" and v is None:
            raise Skip("optional learner")
        if c.kind == "plr" and s == "ml_g" and v is None:
            raise Skip("default learner for ml_g")
        if c.kind == "pliv" and s == "ml_g" and v is None and c.o["var"] == "x_iv":
            pass
        if c.kind == "plr" and s == "ml_m" and isinstance(v, Reg):
            raise Skip("a regressor is a valid choice")
        refuse(lambda: c.make(data=data, learners={**L, s: v}, setsmpls=False), f"{c.kind} learner {s} = {v}")
        cx.label("learner")
    else:
        R = data_requests(c)
        name, f = R[spec["i"] % len(R)]
        try:
            bad_data = f()
        except ERR:
            cx.label("refused by the data object")
            return
        refuse(lambda: c.make(data=bad_data, setsmpls=False, draw_sample_splitting=False), f"{c.kind}: {name}")
        cx.label("data: " + name)
    equal(freeze(data), before, "data after a refused construction")
    equal(freeze(L), lb, "learners after a refused construction")
    ensure(frame.equals(c.df), "table after a refused construction")
    cx.label(c.kind)
    cx.nontrivial()


# ---------------------------------------------------------------- composites
def comp_before(kind, m):
    out = before_fit(m)
    if kind == "apos":
        out += [("causal_contrast before fit", lambda: m.causal_contrast(0.0))]
    return out


def comp_requests(kind, c, m, life, nlev):
    F = {}
    fitted, boot = life >= 1, life >= 2
    F["fit"] = ([("fit(n_jobs_cv)", lambda v=v: m.fit(n_jobs_cv=v)) for v in JOBS] + [("fit(store_predictions)", lambda v=v: m.fit(store_predictions=v)) for v in BOOLS]
                + [("fit(store_models)", lambda v=v: m.fit(store_models=v)) for v in BOOLS])
    F["splitting"] = split_requests(c, m)
    if kind == "qte":
        F["external"] = [("fit(external_predictions) unsupported", lambda v=v: m.fit(external_predictions=v)) for v in ({}, {"d": {}}, 1)]
    else:
        lv = m.treatment_levels
        ok = np.full((c.n, c.r), 0.5)
        full = {l: {"ml_g_d_lvl0": ok * 0, "ml_g_d_lvl1": ok, "ml_m": ok} for l in lv}
        last = lv[-1]
        vals = [1, "x", [1], {99: {}}, {lv[0]: 3}, {lv[0]: [ok]}, {lv[0]: {"ml_g": ok}}, {lv[0]: {"ml_m": ok[:, 0]}}, {last: {"ml_m": ok[1:]}}]
        vals += [{**full, last: {**full[last], "ml_m": ok[1:]}}, {**full, last: {**full[last], "ml_g_d_lvl1": ok.tolist()}}, {**full, last: {**full[last], "ml_nope": ok}}]
        F["external"] = [("fit(external_predictions)", lambda v=v: m.fit(external_predictions=v)) for v in vals]
    if not fitted:
        F["inference"] = comp_before(kind, m)
        return F
    F["inference"] = inf_requests(m, boot, False)
    if kind == "apos":
        F["contrast"] = [("causal_contrast", lambda v=v: m.causal_contrast(v)) for v in (99, "x", [99], [m.treatment_levels[0], 99], None)]
        if nlev == 1:
            F["contrast"] += [("causal_contrast of one level", lambda: m.causal_contrast(m.treatment_levels[0]))]
        F["sensitivity"] = sens_requests(m, nlev) + plot_requests(m, nlev, False)
        xs = c.xn
        F["sensitivity"] += [("sensitivity_benchmark", lambda v=v: m.sensitivity_benchmark(v)) for v in (None, xs[0], tuple(xs), [], ["nope"], [xs[0], "y"])]
        F["sensitivity"] += [("sensitivity_benchmark(fit_args)", lambda v=v: m.sensitivity_benchmark([xs[0]], fit_args=v)) for v in (1, "x")]
    return F


def comp_ctor(kind, c, mk):
    base = {"n_folds": [0, -1, 2.0, "3", None], "n_rep": [0, 1.0, "2", None], "score": ["nope", "", 1, None, gen.call_plr],
            "trimming_threshold": TRIM, "trimming_rule": ["discard", "", None], "normalize_ipw": BOOLS}
    if kind == "qte":
        base["quantiles"] = [0.0, 1.0, -0.1, 1.5, [0.5, 1.0], [0.0, 0.5], [0.5, NAN], NAN, "0.5", None, ["a"], [0.25, 2]]
        base["kde"] = [1, "kde"]
    else:
        base["treatment_levels"] = [99, [0.0, 99], "x", [None], None]
        base["weights"] = [1.0, [1.0], np.ones(c.n + 1), -np.ones(c.n), np.zeros(c.n), {"weights": np.ones(c.n)}]
    return [(f"{kind}({k}) = {repr(v)[:60]}", lambda k=k, v=v: mk(**{"draw_sample_splitting": True, k: v})) for k, L in base.items() for v in L]


@sub("composites", st.fixed_dictionaries({"kind": st.sampled_from(["apos", "apos", "qte"]), "c": gen.specs(kinds=("apo",), max_k=3, max_r=2),
                                          "q": gen.specs(kinds=("pq", "cvar", "lpq"), max_k=3, max_r=2, over={"kde": st.just(0)}), "life": st.integers(0, 2),
                                          "lev": st.permutations([0.0, 1.0, 2.0]), "nlev": st.integers(1, 3), "picks": PICKS, "ctor": st.booleans(), "i": st.integers(0, 10000)}),
     quick=500)
def composites(spec, cx):
    kind, life = spec["kind"], spec["life"]
    c = gen.Case(spec["c"] if kind == "apos" else spec["q"])
    lev = list(spec["lev"])[: spec["nlev"]]
    data = c.data()

    def mk(**kw):
        a = dict(n_folds=c.k, n_rep=c.r, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"], draw_sample_splitting=False)
        if kind == "apos":
            return dml.DoubleMLAPOS(data, c.learners["ml_g"], c.learners["ml_m"], **{**a, "treatment_levels": lev, **kw})
        return dml.DoubleMLQTE(data, c.learners["ml_g"], c.learners["ml_m"], **{**a, "score": {"pq": "PQ", "lpq": "LPQ", "cvar": "CVaR"}[c.kind],
                                                                               "quantiles": [0.3, 0.5, 0.7][: spec["nlev"]], **kw})

    if spec["ctor"] and spec["i"] % 2:
        R = comp_ctor(kind, c, mk)
        name, fn = R[spec["i"] % len(R)]
        before = freeze(data)
        refuse(fn, name)
        equal(freeze(data), before, "data after a refused construction")
        cx.label("ctor", kind)
        cx.nontrivial()
        return
    m = mk()
    m.set_sample_splitting(c.smpls)
    try:
        if life:
            quiet(m.fit)
        if life == 2:
            quiet(m.bootstrap, n_rep_boot=9)
    except ValueError as e:
        raise Skip("fit refused: " + str(e)[:40]) from None
    twin = copy.deepcopy(m)
    cont = []
    if life and kind == "apos" and spec["nlev"] > 1:
        cont.append(("causal_contrast", lambda o: o.causal_contrast(o.treatment_levels[0])))
    if spec["i"] % 3 or not life:
        cont += [("fit", lambda o: o.fit()), ("bootstrap", lambda o: o.bootstrap(n_rep_boot=8)), ("confint", lambda o: o.confint(joint=True))]
    try:
        attack(cx, twin, m, lambda o: comp_requests(kind, c, o, life, spec["nlev"]), spec["picks"], cont, kind)
    except ValueError as e:
        if life == 0 and "finite" in str(e):
            raise Skip("fit refused") from None
        raise
    cx.label(kind, f"life={life}")
    cx.nontrivial(life > 0 or bool(cont))


# ---------------------------------------------------------------- result objects
def fw_requests(M, f, life):
    p = M.th.shape[0]
    F = {"inference": inf_requests(f, life >= 1 and M.cl is None, M.cl is not None)}
    if M.mb is not None:
        F["sensitivity"] = sens_requests(f, p) + plot_requests(f, p, life == 2)
    else:
        F["sensitivity"] = [("sensitivity_analysis unsupported", lambda: f.sensitivity_analysis())]
    F["combine"] = []
    for v in (1, 1.0, None, "x", np.ones(p), [f]):
        F["combine"] += [("add", lambda v=v: f + v), ("subtract", lambda v=v: f - v)]
        if not isinstance(v, (float, int)):
            F["combine"] += [("concat", lambda v=v: concat([f, v]))]
    F["combine"] += [("multiply", lambda v=v: f * v) for v in (f, "a", None, [1.0])]
    F["combine"] += [("concat empty", lambda: concat([]))] + ([("concat clustered", lambda: concat([f, f]))] if M.cl is not None else [])
    n = M.psi.shape[0]
    for q in (dict(n=n + 1), dict(r=M.th.shape[1] + 1), dict(p=p + 1)):
        o = _other(M, **q)
        F["combine"] += [(f"add other {list(q)}", lambda o=o: f + o), (f"subtract other {list(q)}", lambda o=o: o - f)]
        if "p" not in q:
            F["combine"] += [(f"concat other {list(q)}", lambda o=o: concat([f, o]))]
    if M.cl is not None:
        o = _other(M)
        F["combine"] += [("add clustered and not", lambda: f + o), ("subtract clustered and not", lambda: o - f), ("concat clustered and not", lambda: concat([o, f]))]

    def names(v):
        f.treatment_names = v
    F["names"] = [("treatment_names", lambda v=v: names(v)) for v in (None, "a", 1, ("a",) * p, ["a"] * (p + 1), [1] * p, ["a"] * (p - 1), [None] * p)]
    return F


def _other(M, n=None, p=None, r=None):
    """A compatible object without clusters except for the given dimensions."""
    pp, rr = M.th.shape
    n, p, r = n or M.psi.shape[0], p or pp, r or rr
    rng = np.random.default_rng(0)
    return fw.Model(rng.normal(size=(p, r)), rng.normal(size=(n, p, r)), np.full(p, float(n))).build()


def dict_requests(M):
    d = M.dict()
    n, p, r = M.psi.shape
    out = [("not a dictionary", v) for v in (None, 1, list(d.items()))]
    for k in ("thetas", "ses", "all_thetas", "all_ses", "var_scaling_factors", "scaled_psi"):
        out.append((f"without {k}", {a: b for a, b in d.items() if a != k}))
        if k != "scaled_psi":
            out.append((f"{k} too long", {**d, k: np.concatenate((d[k], d[k]))}))
            out.append((f"{k} with another dimension", {**d, k: d[k][..., None]}))
    for v in ("a", ["a"] * (p + 1), [1] * p, tuple("ab"), None):
        out.append(("treatment_names", {**d, "treatment_names": v}))
    for v in BOOLS:
        out.append(("is_cluster_data", {**d, "is_cluster_data": v}))
    if M.cl is None:
        out.append(("clusters without description", {**d, "is_cluster_data": True}))
    else:
        out += [("cluster_dict", {**d, "cluster_dict": v}) for v in (None, 1, [d["cluster_dict"]], {k: v for k, v in d["cluster_dict"].items() if k != "smpls"})]
    if M.mb is not None:
        e = d["sensitivity_elements"]
        out += [("sensitivity_elements", {**d, "sensitivity_elements": v}) for v in (1, list(e), {"max_bias": e["max_bias"]}, {**e, "max_bias": 1.0}, {**e, "max_bias": e["max_bias"][0]},
                                                                              {**e, "psi_max_bias": e["psi_max_bias"][1:]}, {**e, "psi_max_bias": e["psi_max_bias"].tolist()})]
        if M.s2 is not None:
            out += [("sensitivity_elements", {**d, "sensitivity_elements": v}) for v in ({**e, "sigma2": -e["sigma2"]}, {**e, "nu2": -e["nu2"]}, {**e, "nu2": e["nu2"][0]}, {**e, "nu2": 1.0})]
    return out


@sub("results", st.fixed_dictionaries({"f": fw.specs(max_p=3, max_r=3, max_n=30), "life": st.integers(0, 2), "picks": PICKS, "ctor": st.booleans(), "i": st.integers(0, 100000)}), quick=700)
def results(spec, cx):
    M = fw.model(spec["f"])
    if spec["ctor"] and spec["i"] % 2:
        R = dict_requests(M)
        name, v = R[(spec["i"] // 2) % len(R)]
        b = freeze(v)
        refuse(lambda: DoubleMLFramework(v), "result object: " + name)
        equal(freeze(v), b, "dictionary after a refused construction")
        cx.label("ctor")
        cx.nontrivial()
        return
    f = M.build()
    life = spec["life"]
    if life and M.cl is None:
        quiet(f.bootstrap, n_rep_boot=9)
    if life == 2 and M.mb is not None:
        quiet(f.sensitivity_analysis, cf_y=0.05)
    twin = copy.deepcopy(f)
    cont = [("confint", lambda o: o.confint()), ("summary", lambda o: o.summary), ("double", lambda o: o + o)]
    if life and M.cl is None:
        cont += [("joint confint", lambda o: o.confint(joint=True)), ("p_adjust", lambda o: o.p_adjust())]
    if M.mb is not None:
        cont += [("sensitivity_analysis", lambda o: o.sensitivity_analysis())]
    attack(cx, twin, f, lambda o: fw_requests(M, o, life if M.mb is not None or life < 2 else 1), spec["picks"], cont, "result object")
    cx.label(f"life={life}", f"clusters={spec['f']['cl']}")
    cx.nontrivial()


# ---------------------------------------------------------------- predictors, trees, designs
@sub("projections", st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(12, 40), "k": st.integers(1, 3), "life": st.integers(0, 1), "tree": st.booleans(), "picks": PICKS,
                                           "ctor": st.booleans(), "i": st.integers(0, 100000)}), quick=500)
def projections(spec, cx):
    rng = np.random.default_rng(spec["seed"])
    n, k = spec["n"], spec["k"]
    y = rng.normal(size=n)
    B = pd.DataFrame(rng.normal(size=(n, k)), columns=[f"b{i}" for i in range(k)])
    B2 = pd.concat((B, B), axis=1)
    keep = freeze([y, B])
    if spec["tree"]:
        mk = lambda s=y, x=B, **kw: DoubleMLPolicyTree(s, x, **kw)  # noqa: E731
    else:
        mk = lambda s=y, x=B, **kw: DoubleMLBLP(s, x, **kw)  # noqa: E731
    if spec["ctor"] and spec["i"] % 2:
        R = [("signal", lambda v=v: mk(s=v)) for v in (None, 1.0, y.tolist(), pd.Series(y), y[:, None], y.reshape(1, -1))]
        R += [("basis", lambda v=v: mk(x=v)) for v in (None, 1, B.to_numpy(), B.to_dict(), B2, B["b0"])]
        name, fn = R[(spec["i"] // 2) % len(R)]
        refuse(fn, ("tree " if spec["tree"] else "predictor ") + name)
        equal(freeze([y, B]), keep, "inputs after a refused construction")
        cx.label("ctor")
        cx.nontrivial()
        return
    o = mk()
    if spec["life"]:
        o.fit()
    twin = copy.deepcopy(o)
    if spec["tree"]:
        bad_x = [None, B.to_numpy(), "x", B.rename(columns={"b0": "z"}), B.assign(more=1.0)] + ([B[["b0"]]] if k > 1 else [])

        def build(m):
            if not spec["life"]:
                return {"p": [("predict before fit", lambda: m.predict(B)), ("plot before fit", lambda: m.plot_tree())]}
            return {"p": [("predict", lambda v=v: m.predict(v)) for v in bad_x]}
        cont = [("fit", lambda m: m.fit()), ("predict", lambda m: m.predict(B))]
    else:
        def build(m):
            F = {"c": [("confint(level)", lambda v=v: m.confint(level=v)) for v in LEVEL] + [("confint(joint)", lambda v=v: m.confint(joint=v)) for v in BOOLS]
                 + [("confint(n_rep_boot)", lambda v=v: m.confint(joint=True, n_rep_boot=v)) for v in POS]}
            if not spec["life"]:
                F["f"] = [("confint before fit", lambda: m.confint()), ("confint before fit", lambda: m.confint(B))]
            else:
                F["f"] = [("confint(basis)", lambda v=v: m.confint(v)) for v in (B.assign(more=1.0), B.rename(columns={"b0": "z"}), B2)]
            return F
        cont = [("fit", lambda m: m.fit()), ("confint", lambda m: m.confint()), ("confint", lambda m: m.confint(B.iloc[:5], joint=True, n_rep_boot=20))]
    attack(cx, twin, o, build, spec["picks"], cont, "tree" if spec["tree"] else "predictor", also=(KeyError,))
    equal(freeze([y, B]), keep, "inputs after refused requests")
    cx.label("tree" if spec["tree"] else "predictor", f"life={spec['life']}")
    cx.nontrivial()


@sub("designs", st.fixed_dictionaries({"c": c25.CASE, "ctor": st.booleans(), "i": st.integers(0, 100000), "life": st.integers(0, 1), "picks": PICKS}), quick=160)
def designs(spec, cx):
    s = dict(spec["c"], kw={}, r=min(spec["c"]["r"], 2), h=1.5)
    o = c25.RD(s)
    df = o.frame()
    if spec["ctor"] and spec["i"] % 2:
        far = float(np.abs(df["s"]).max() + 1)
        base = {"cutoff": ["0", None, [0.0], far, -far, NAN], "n_folds": [1, 0, 2.0, "3", None], "n_rep": [0, 1.0, "2", None], "h_fs": [1, "1", [1.0]],
                "fs_specification": ["nope", 1, None, ["cutoff"]], "fs_kernel": ["nope", 1, None, ["uniform"]]}
        R = [(k, v) for k, L in base.items() for v in L]
        k, v = R[(spec["i"] // 2) % len(R)]
        data = dml.DoubleMLData(df, "y", "d", o.xn, s_col="s")
        G, M = Reg(), Cls() if s["fuzzy"] else None
        if k == "h_fs" or True:
            b = freeze(data)
            c25.guarded(lambda: refuse(lambda: RDFlex(data, G, M, fuzzy=s["fuzzy"], **{"cutoff": o.c, "n_folds": 2, "n_rep": 1, "h_fs": 1.5, **{k: v}}), f"design {k} = {v!r}"))
            equal(freeze(data), b, "data after a refused construction")
        cx.label("ctor " + k)
        cx.nontrivial()
        return
    m = c25.guarded(lambda: o.model(df, spy=False))
    if spec["life"]:
        c25.guarded(m.fit)
    twin = copy.deepcopy(m)

    def build(q):
        F = {"c": [("confint(level)", lambda v=v: q.confint(level=v)) for v in LEVEL]}
        F["f"] = [("fit(n_iterations)", lambda v=v: q.fit(n_iterations=v)) for v in POS]
        return F
    cont = [("fit", lambda q: None if c25.guarded(q.fit) else None)]
    if spec["life"]:
        cont.append(("confint", lambda q: q.confint()))
    attack(cx, twin, m, build, spec["picks"], cont, "design")
    cx.label(f"life={spec['life']}")
    cx.nontrivial()
