"""C17: fitting is deterministic and independent of history and of options without effect."""
import warnings

import joblib
import numpy as np
from hypothesis import strategies as st

import doubleml as dml

from .. import common, gen
from ..core import Skip, close, ensure, sub
from ..learners import Cls, Reg
from .c07 import ext_of

RULE = """A case is a generated data set, model (all classes, clusters for part of them), splitting and hyperparameters with variants
of the way it is fitted (storing, threads, parameters given globally / per fold / in the learner), or a history of 3-9 operations
(re-draw, new splitting, parameters, tuning, fits with and without external predictions, inference calls) whose every plain fit is
compared with a freshly built model. Non-trivial: finite positive standard errors and, for histories, at least two fits."""
ASSUMPTIONS = ["learners are deterministic", "parallel execution is exercised with the threading backend of joblib (n_jobs 2)"]

LINTUNE = ("plr", "pliv", "irm", "apo", "iivm", "ssm", "did", "didcs", "pq", "lpq", "cvar")


def results(m, preds=True):
    out = {"all_coef": np.array(m.all_coef), "all_se": np.array(m.all_se), "coef": np.array(m.coef), "se": np.array(m.se),
           "psi": np.array(m.psi), "psi_deriv": np.array(m.psi_deriv), "thetas": np.array(m.framework.thetas),
           "ses": np.array(m.framework.ses), "scaled_psi": np.array(m.framework.scaled_psi), "t": np.array(m.t_stat)}
    for nm, v in m.nuisance_loss.items():
        out["loss " + nm] = np.array(v)
    E = m.sensitivity_elements
    if E is not None:
        for k, v in E.items():
            out["sens " + k] = np.array(v)
    if preds:
        for nm, v in m.predictions.items():
            out["pred " + nm] = np.array(v)
        for nm, v in m.nuisance_targets.items():
            out["target " + nm] = np.array(v)
    return out


def equal(a, b, what, exact=True):
    for k in a:
        if k not in b:
            continue
        ensure(a[k].shape == b[k].shape, f"{what}: shape of {k} {a[k].shape} and {b[k].shape}")
        if exact:
            ok = np.array_equal(np.asarray(a[k], float), np.asarray(b[k], float), equal_nan=True)
            ensure(ok or np.allclose(np.asarray(a[k], float), np.asarray(b[k], float), rtol=1e-11, atol=1e-13, equal_nan=True), f"{what}: {k} differs: {np.ravel(a[k])[:4]} and {np.ravel(b[k])[:4]}")


def params_for(c, s, r, how):
    """name -> treatment -> parameters; how: one per learner, or one per repetition and fold."""
    rng = np.random.default_rng(s)
    out = {}
    al = [0.02, 0.2, 0.7, 2.0, 8.0]
    for nm in c.nuis_names():
        out[nm] = {}
        for d in c.dn:
            out[nm][d] = {"alpha": float(rng.choice(al))}
    return out


def set_params(m, P, nf, nr, how):
    for nm in P:
        for d, p in P[nm].items():
            if how == "dict":
                m.set_ml_nuisance_params(nm, d, dict(p))
            else:
                m.set_ml_nuisance_params(nm, d, [[dict(p) for _ in range(nf)] for _ in range(nr)])


CLUST = gen.specs(kinds=("plr", "pliv"), cluster=(1, 1, 2), max_k=3, max_r=2)


@sub("options", common.with_flag(st.one_of(gen.specs(max_k=3, max_r=3), gen.specs(max_k=3, max_r=3), gen.specs(kinds=("plr", "pliv", "irm", "apo"), cluster=(1, 2), max_k=3, max_r=2)), ps=st.none() | gen.SEED,
                                 var=st.sampled_from(["again", "fresh", "nostore", "models", "models_nostore", "threads", "threads_models", "listparams",
                                                      "none_params"])), quick=500)
def options(spec, cx):
    sp = spec["c"]
    c = common.need_cells(gen.Case(sp))
    nf = len(c.smpls[0])
    P = None if spec["ps"] is None else params_for(c, spec["ps"], c.r, "dict")

    def build(how="dict"):
        m = c.make()
        if P is not None:
            set_params(m, P, nf, c.r, how)
        return m

    base = build()
    base.fit()
    want = results(base)
    v = spec["var"]
    kw, m, pr = {}, None, True
    if v == "again":
        m = base
    elif v == "fresh":
        m = build()
    elif v == "listparams":
        m = build("list")
    elif v == "none_params":
        m = c.make()
        for nm in c.nuis_names():
            for d in c.dn:
                m.set_ml_nuisance_params(nm, d, None)
        if P is not None:
            set_params(m, P, nf, c.r, "list")
    else:
        m = build()
        if "nostore" in v:
            kw["store_predictions"], pr = False, False
        if "models" in v:
            kw["store_models"] = True
        if "threads" in v:
            kw["n_jobs_cv"] = 2
    if "threads" in v:
        with joblib.parallel_backend("threading"):
            m.fit(**kw)
    else:
        m.fit(**kw)
    equal(want, results(m, pr), f"{c.kind} {v}")
    if v == "again":
        equal(want, results(base.fit(store_predictions=True)), f"{c.kind} third fit")
    cx.label(c.kind, v, "cluster" if c.cl else "", "params" if P else "")
    cx.nontrivial(bool(np.all(np.isfinite(base.se) & (base.se > 0))))


@sub("params_in_learner", common.with_flag(gen.specs(max_k=3, max_r=2), a=st.sampled_from([0.02, 0.2, 0.7, 8.0])), quick=250)
def in_learner(spec, cx):
    """The same hyperparameters in the learner or set on the model."""
    c = gen.Case(spec["c"])
    m1 = c.make()
    for nm in c.nuis_names():
        for d in c.dn:
            m1.set_ml_nuisance_params(nm, d, {"alpha": spec["a"]})
    m1.fit()
    L = {k: (Cls(alpha=spec["a"]) if isinstance(v, Cls) else Reg(alpha=spec["a"])) for k, v in c.learners.items()}
    m2 = c.make(learners=L)
    m2.fit()
    equal(results(m1), results(m2), f"{c.kind} parameters in the learner")
    cx.label(c.kind)
    cx.nontrivial(bool(np.all(m1.se > 0)))


@sub("repetitions_alone", gen.specs(cluster=(0, 0, 1), max_k=3, max_r=3), quick=300)
def alone(spec, cx):
    """Each repetition of a repeated fit equals the fit with that splitting alone."""
    sp = spec if not spec["cl"] or spec["kind"] in ("plr", "pliv", "irm") else dict(spec, cl=0)
    c = common.need_cells(gen.Case(sp))
    if isinstance(c.weights_arg, dict):
        c.weights_arg = c.weights_arg["weights"]
    m = c.make()
    m.fit()
    for r in range(c.r):
        s = c.make(setsmpls=False, n_rep=1)
        if c.cl:
            s.set_sample_splitting([c.smpls[r]], [c.smpls_cluster[r]])
        else:
            s.set_sample_splitting([c.smpls[r]])
        s.fit()
        close(m.all_coef[:, [r]], s.all_coef, f"{c.kind} coefficient of repetition {r} alone", 1e-10, 1e-12)
        close(m.all_se[:, [r]], s.all_se, f"{c.kind} standard error of repetition {r} alone", 1e-10, 1e-12)
        close(m.psi[:, [r]], s.psi, f"{c.kind} score of repetition {r} alone", 1e-10, 1e-12)
    cx.label(c.kind, f"r={c.r}")
    cx.nontrivial(c.r > 1 and bool(np.all(m.se > 0)))


OPS = st.one_of(
    st.tuples(st.just("fit"), st.sampled_from(["plain", "plain", "plain", "nostore", "models"])),
    st.tuples(st.just("draw"), gen.SEED),
    st.tuples(st.just("split"), st.integers(0, 3)),
    st.tuples(st.just("params"), gen.SEED, st.booleans()),
    st.tuples(st.just("tune"), gen.SEED, st.booleans()),
    st.tuples(st.just("ext"), gen.SEED),
    st.tuples(st.just("infer"), gen.SEED),
)


@sub("history", st.fixed_dictionaries({"c": st.one_of(gen.specs(kinds=LINTUNE, max_k=3, max_r=2), gen.specs(kinds=LINTUNE, max_k=3, max_r=2), gen.specs(kinds=LINTUNE, max_k=3, max_r=2), CLUST), "ops": st.lists(OPS, min_size=3, max_size=9)}), quick=300)
def history(spec, cx):
    sp = spec["c"]
    c = common.need_cells(gen.Case(sp))
    # further splittings of other sizes
    splits = [(c.smpls, c.smpls_cluster)]
    rng = np.random.default_rng(sp["seed"] + 1)
    for i in range(3):
        if c.cl:
            kr = c.k, c.r
            c.k, c.r = 2 + i % 2, 1 + i % 2
            splits.append(c._cluster_smpls(rng))
            c.k, c.r = kr
        else:
            r2 = c.r if isinstance(c.weights_arg, dict) else 1 + i % 3
            splits.append((gen.make_smpls(rng, c.n, 2 + i % 2, r2, c.strata, ["strat", "thin", "shift"][i]), None))
    m = c.make()
    fits = 0

    def fresh():
        f = c.make(setsmpls=False, n_folds=m.n_folds if not c.cl else c.k, n_rep=m.n_rep)
        if c.cl:
            f.set_sample_splitting(m.smpls, m.smpls_cluster)
        else:
            f.set_sample_splitting(m.smpls)
        for nm in m.params_names:
            for d in c.dn:
                p = m.params[nm][d]
                if p is not None and p[0] is not None:
                    f.set_ml_nuisance_params(nm, d, p)
        return f

    for op in list(spec["ops"]) + [("fit", "plain")]:
        o = op[0]
        cx.label(o)
        if o == "fit":
            kw = {"plain": {}, "nostore": {"store_predictions": False}, "models": {"store_models": True}}[op[1]]
            m.fit(**kw)
            fits += 1
            f = fresh()
            f.fit()
            equal(results(f), results(m, op[1] != "nostore"), f"{c.kind} fit {fits} after {spec['ops']}")
        elif o == "draw":
            np.random.seed(op[1] % 2**31)
            m.draw_sample_splitting()
            if c.strata is not None and c.cl == 0:
                pass
        elif o == "split":
            s, sc = splits[op[1]]
            if c.cl:
                m.set_sample_splitting(s, sc)
            else:
                m.set_sample_splitting(s)
        elif o == "params":
            P = params_for(c, op[1], m.n_rep, "dict")
            set_params(m, P, len(m.smpls[0]), m.n_rep, "list" if op[2] else "dict")
        elif o == "tune":
            np.random.seed(op[1] % 2**31)
            m.tune({k: {"alpha": [0.05, 1.5]} for k in m.learner_names}, n_folds_tune=2, tune_on_folds=op[2])
        elif o == "ext":
            if c.kind not in common.EXTERNAL + ("pq", "lpq") or c.o.get("var") in ("z", "zm", "xz", "xzm"):
                continue
            c.r, r0 = m.n_rep, c.r
            e = ext_of(c, op[1]) if c.kind in ("pq", "lpq") else common.external(c, seed=op[1], extreme=False)
            c.r = r0
            if c.kind in ("did", "didcs") and c.o["score"] == "experimental":
                e = {d: {k: v for k, v in x.items() if k != "ml_m"} for d, x in e.items()}
            m.fit(external_predictions=e)
        elif o == "infer":
            if m.framework is None or np.any(np.isnan(m.all_coef)):
                continue
            np.random.seed(op[1] % 2**31)
            if not c.cl:
                m.bootstrap(n_rep_boot=20)
                m.confint(joint=True)
            m.confint()
            m.summary
            if c.kind in gen.LINEAR_SENS and not callable(c.score_arg()):
                m.sensitivity_analysis()
            try:
                m.evaluate_learners()
            except (ValueError, TypeError):
                pass
    cx.label(c.kind, "cluster" if c.cl else "")
    cx.nontrivial(fits > 1 and bool(np.all(m.se > 0)))


@sub("redraw", common.with_flag(gen.specs(cluster=(0, 0, 1), max_k=3, max_r=2, kinds=("plr", "pliv", "irm", "apo", "iivm", "did", "didcs", "pq", "cvar")),
                                s=gen.SEED), quick=150)
def redraw(spec, cx):
    """Equal random states give equal splittings and results (stratified models draw twice in the constructor, so the constructor and a
    later draw are compared only with themselves)."""
    sp = spec["c"]
    if sp["cl"] and sp["kind"] not in ("plr", "pliv"):
        sp = dict(sp, cl=0)
    c = gen.Case(sp)
    s = spec["s"] % 2**31

    def ctor():
        np.random.seed(s)
        return c.make(setsmpls=False, draw_sample_splitting=True)

    def later():
        m = c.make(setsmpls=False)
        np.random.seed(s)
        m.draw_sample_splitting()
        return m

    a, b, d, e = ctor(), later(), ctor(), later()
    for m in (a, b, d, e):
        m.fit()
    equal(results(b), results(e), f"{c.kind} drawn later with the same random state")
    equal(results(a), results(d), f"{c.kind} drawn again with the same random state")
    cx.label(c.kind)
    cx.nontrivial(bool(np.all(a.se > 0)))


COP = st.one_of(st.tuples(st.just("fit"), st.sampled_from(["plain", "plain", "nostore", "models", "threads"])), st.tuples(st.just("draw"), gen.SEED),
                st.tuples(st.just("split"), st.integers(0, 2)), st.tuples(st.just("infer"), gen.SEED))


@sub("composite", st.fixed_dictionaries({"c": gen.specs(kinds=("apo", "cvar", "pq", "lpq"), max_k=3, max_r=2),
                                         "ops": st.lists(COP, min_size=2, max_size=5)}), quick=120)
def composite(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["c"]["seed"] + 1)
    r2 = c.r if isinstance(c.weights_arg, dict) else 3 - c.r
    splits = [c.smpls, gen.make_smpls(rng, c.n, 2, c.r, c.strata), gen.make_smpls(rng, c.n, 3, r2, c.strata, "thin")]

    def build(draw=False):
        if c.kind == "apo":
            return dml.DoubleMLAPOS(c.data(), c.learners["ml_g"], c.learners["ml_m"], treatment_levels=[0, 2], weights=c.weights_arg, n_folds=c.k,
                                    n_rep=c.r, draw_sample_splitting=draw, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"])
        return dml.DoubleMLQTE(c.data(), c.learners["ml_g"], c.learners["ml_m"], quantiles=[0.3, 0.5], score={"pq": "PQ", "lpq": "LPQ", "cvar": "CVaR"}[c.kind],
                               n_folds=c.k, n_rep=c.r, draw_sample_splitting=draw, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"])

    def res(m):
        f = m.framework
        return {k: np.array(getattr(f, k)) for k in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi")}

    m = build()
    m.set_sample_splitting(c.smpls)
    fits = 0
    for op in list(spec["ops"]) + [("fit", "plain")]:
        if op[0] == "fit":
            kw = {"plain": {}, "nostore": {"store_predictions": False}, "models": {"store_models": True}, "threads": {"n_jobs_models": 2}}[op[1]]
            with joblib.parallel_backend("threading"):
                m.fit(**kw)
            fits += 1
            f = build()
            f.set_sample_splitting(m.smpls)
            f.fit()
            equal(res(f), res(m), f"composite {c.kind} fit {fits} after {spec['ops']}")
        elif op[0] == "draw":
            if c.kind == "lpq":
                continue  # drawn splittings are stratified by the treatment only: instrument cells may be empty
            np.random.seed(op[1] % 2**31)
            m.draw_sample_splitting()
        elif op[0] == "split":
            m.set_sample_splitting(splits[op[1]])
        elif m.framework is not None:
            m.bootstrap(n_rep_boot=20)
            m.confint(joint=True)
            m.summary
    cx.label(c.kind, *[o[0] for o in spec["ops"]])
    cx.nontrivial(fits > 1 and bool(np.all(m.framework.ses > 0)))


_ = (warnings, Skip)
