"""C29: user-supplied objects are never modified and never shared between results."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression, LogisticRegression

import doubleml as dml
from doubleml.double_ml_framework import concat
from doubleml.utils.blp import DoubleMLBLP
from doubleml.utils.gain_statistics import gain_statistics
from doubleml.utils.global_learner import GlobalClassifier, GlobalRegressor
from doubleml.utils.policytree import DoubleMLPolicyTree

from .. import common, fw, gen
from ..core import Fail, Skip, ensure, sub
from ..frozen import equal, freeze
from ..learners import Cls, Reg
from . import c25
from .c28 import has_ext, has_sens

RULE = """Interleaving: two or three models (of the same or different classes) share one data object, learners, weights, splitting lists,
external prediction dictionaries, hyperparameter dictionaries, grids, scoring dictionaries and bases; a random sequence of operations
(fit, refit with and without external predictions, new splitting, bootstrap, sensitivity analysis, tuning, parameters, evaluation,
benchmarks, effect heterogeneity, combination of results) is applied to randomly chosen models. After every operation all shared inputs,
all other models and all result objects obtained earlier are unchanged, and at the end every model equals one that performed its own
operations alone on its own copy of the inputs. Non-trivial: at least two models produced results and at least three operations ran."""
ASSUMPTIONS = ["the active treatment of a data object with several treatments (its x and d) is working state and not compared",
               "the current result object of a model is updated by its own bootstrap and sensitivity analysis (documented)"]


def quiet(f, seed=3):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(seed)
        return f()


def builders(c):
    """Constructors of models on the data of a case: name -> fn(inputs)."""
    B = {}
    nf = dict(n_folds=c.k, n_rep=c.r, draw_sample_splitting=False)

    def main(I):
        return c.make(data=I["data"], learners=I["L"], setsmpls=False, **({"weights": I["w"]} if c.kind in ("irm", "apo") else {}))
    B["main"] = main
    if c.kind in ("irm", "did", "pq", "cvar"):
        R = lambda I: I["R"]  # noqa: E731
        C = lambda I: I["C"]  # noqa: E731
        B["plr"] = lambda I: dml.DoubleMLPLR(I["data"], R(I), C(I), **nf)
        B["irm"] = lambda I: dml.DoubleMLIRM(I["data"], R(I), C(I), weights=I["w0"], **nf)
        B["apo"] = lambda I: dml.DoubleMLAPO(I["data"], R(I), C(I), treatment_level=1, weights=I["w0"], **nf)
        B["did"] = lambda I: dml.DoubleMLDID(I["data"], R(I), C(I), **nf)
        B["pq"] = lambda I: dml.DoubleMLPQ(I["data"], C(I), C(I), **nf)
        B["cvar"] = lambda I: dml.DoubleMLCVAR(I["data"], R(I), C(I), **nf)
        B["apos"] = lambda I: dml.DoubleMLAPOS(I["data"], R(I), C(I), treatment_levels=[0.0, 1.0], weights=I["w0"], **nf)
        B["qte"] = lambda I: dml.DoubleMLQTE(I["data"], C(I), C(I), quantiles=I["quant"], **nf)
    elif c.kind == "apo":
        B["apos"] = lambda I: dml.DoubleMLAPOS(I["data"], I["L"]["ml_g"], I["L"]["ml_m"], treatment_levels=I["levels"], weights=I["w"], **nf)
        B["apo"] = lambda I: dml.DoubleMLAPO(I["data"], I["L"]["ml_g"], I["L"]["ml_m"], treatment_level=1, **nf)
        B["plr"] = lambda I: dml.DoubleMLPLR(I["data"], I["R"], I["R"], **nf)
    elif c.kind in ("iivm", "lpq"):
        B["iivm"] = lambda I: dml.DoubleMLIIVM(I["data"], I["R"], I["C"], I["C"], subgroups=I["sub"], **nf)
        B["lpq"] = lambda I: dml.DoubleMLLPQ(I["data"], I["C"], I["C"], **nf)
        B["pliv"] = lambda I: dml.DoubleMLPLIV(I["data"], I["R"], I["R"], I["R"], **nf)
    elif c.kind == "plr":
        B["plr_iv"] = lambda I: dml.DoubleMLPLR(I["data"], I["R"], I["R"], I["R"], score="IV-type", **nf)
        if c.o["mcls"] and c.nt == 1:
            B["irm"] = lambda I: dml.DoubleMLIRM(I["data"], I["R"], I["C"], **nf)
    elif c.kind == "pliv":
        B["pliv"] = lambda I: dml.DoubleMLPLIV(I["data"], I["R"], I["R"], I["R"], **nf)
    return B


def inputs(c, s):
    """Everything a user hands over, shared between the models of a case."""
    rng = np.random.default_rng(s)
    n = c.n
    I = {"df": c.df, "L": c.learners, "R": Reg(alpha=0.4, tag="R"), "C": Cls(alpha=0.8, tag="C"), "w": c.weights_arg, "w0": np.round(rng.random(n) + 0.2, 3),
         "quant": np.array([0.4, 0.6]), "levels": [2.0, 0.0], "sub": {"always_takers": True, "never_takers": True}, "smpls": c.smpls, "smpls_cluster": c.smpls_cluster,
         "par": {"alpha": 0.7}, "fold_par": [[{"alpha": float(a)} for a in rng.choice([0.1, 1.0, 5.0], len(c.smpls[0]))] for _ in range(c.r)],
         "bench": [c.xn[0]], "fit_args": {"store_predictions": True}, "null": np.full(c.nt, 0.1), "basis": pd.DataFrame({"one": np.ones(n), "b": rng.normal(size=n)}),
         "groups": pd.DataFrame({"g": rng.permutation(np.arange(n) % 2)}), "ext": common.external(c, seed=s, extreme=False) if c.kind in common.EXTERNAL else {},
         "score": {}, "grid": {}}
    if c.cl:
        I["smpls2"], I["smpls2_cluster"] = c._cluster_smpls(rng)
        common_cells(c, I["smpls2"])
    else:
        I["smpls2"] = gen.make_smpls(rng, n, c.k, c.r, c.strata)
        I["smpls2_cluster"] = None
    I["data"] = c.data(df=I["df"])
    for k in sorted(set(list(c.learners) + ["ml_l", "ml_m", "ml_g", "ml_r"])):
        I["grid"][k] = {"alpha": [0.1, 2.0]}
    return I


def common_cells(c, smpls):
    if c.strata is None:
        return
    full = set(np.unique(c.strata))
    for sm in smpls:
        for tr, te in sm:
            if set(np.unique(c.strata[tr])) != full or len(te) == 0:
                raise Skip("empty training cell")


def snap(I, c):
    out = {}
    for k, v in I.items():
        f = freeze(v)
        if k == "data" and c.nt > 1:
            f = (f[0], f[1], {a: b for a, b in f[2].items() if a not in ("x", "d")})
        out[k] = f
    return out


def op_names(c, m):
    single = hasattr(m, "params_names")
    L = ["fit", "fit", "fit", "split", "split2", "draw", "fit_models", "bootstrap", "confint", "p_adjust", "summary", "combine"]
    if single:
        L += ["tune", "par", "fold_par", "evaluate", "ext", "sens", "bench", "het", "gain"]
    else:
        L += ["sens", "bench", "contrast"]
    return L


def do(op, m, I, c):
    """Run one operation; anything a user may hold afterwards is returned."""
    single = hasattr(m, "params_names")
    if op == "fit":
        m.fit()
        return m.framework
    if op == "fit_models":
        m.fit(store_models=True, store_predictions=True)
        return m.framework
    if op == "ext":
        ext = I["ext"]
        d = I["data"].d_cols[0]
        nm = [x for x in m.params_names if x in ext.get(d, {})]
        if not nm:
            raise ValueError("nothing to supply")
        sup = {t: {x: ext[t][x] for x in nm} for t in I["data"].d_cols}
        b = freeze(sup)
        m.fit(external_predictions=sup)
        equal(freeze(sup), b, "dictionary of external predictions")
        return m.framework
    if op == "split":
        m.set_sample_splitting(I["smpls"], I["smpls_cluster"]) if single else m.set_sample_splitting(I["smpls"])
    elif op == "split2":
        m.set_sample_splitting(I["smpls2"], I["smpls2_cluster"]) if single else m.set_sample_splitting(I["smpls2"])
    elif op == "draw":
        m.draw_sample_splitting()
    elif op == "bootstrap":
        m.bootstrap(n_rep_boot=6)
    elif op == "confint":
        return m.confint(joint=bool(m.boot_method), level=0.9)
    elif op == "p_adjust":
        return m.p_adjust(method="romano-wolf" if m.boot_method else "holm")
    elif op == "summary":
        return [m.summary, str(m)]
    elif op == "combine":
        f = m.framework
        if f is None:
            raise ValueError("not fitted")
        return [f * 2.0 - f, f + f] + ([] if c.cl else [concat([f, f * -1.0])])
    elif op == "tune":
        return m.tune(I["grid"], scoring_methods=I["score"], n_folds_tune=2, return_tune_res=True, tune_on_folds=False)
    elif op == "par":
        m.set_ml_nuisance_params(m.params_names[0], I["data"].d_cols[-1], I["par"])
    elif op == "fold_par":
        m.set_ml_nuisance_params(m.params_names[-1], I["data"].d_cols[0], I["fold_par"])
    elif op == "evaluate":
        return m.evaluate_learners()
    elif op == "sens":
        m.sensitivity_analysis(cf_y=0.04, null_hypothesis=I["null"] if single else 0.1)
        return m.sensitivity_summary
    elif op == "bench":
        if m.framework is None or c.p < 2:
            raise ValueError("not available")
        return m.sensitivity_benchmark(I["bench"], fit_args=I["fit_args"])
    elif op == "gain":
        if m.framework is None or m.sensitivity_elements is None:
            raise ValueError("not available")
        o = copy.deepcopy(m)
        b = freeze(o)
        r = gain_statistics(m, o)
        equal(freeze(o), b, "short model handed to gain_statistics")
        return r
    elif op == "het":
        if m.framework is None:
            raise ValueError("not fitted")
        k = "capo" if hasattr(m, "capo") else "cate"
        if not hasattr(m, k) or (callable(m.score) and isinstance(m, dml.DoubleMLPLR)):
            raise ValueError("not available")
        out = [getattr(m, k)(I["basis"])]
        out.append(getattr(m, "gapo" if k == "capo" else "gate")(I["groups"].astype(bool)))
        if hasattr(m, "policy_tree"):
            out.append(m.policy_tree(c.df[c.xn], depth=1))
        return out
    elif op == "contrast":
        return m.causal_contrast(m.treatment_levels[0])
    else:
        raise KeyError(op)
    return None


OWN = ("bootstrap", "sens")  # operations that legitimately update the current result object of the model
ERRS = (ValueError, TypeError, NotImplementedError, AttributeError, np.linalg.LinAlgError)


def attempt(op, m, I, c, seed):
    try:
        return quiet(lambda: do(op, m, I, c), seed), None
    except ERRS as e:
        return None, type(e).__name__


PROG = st.lists(st.tuples(st.integers(0, 2), st.integers(0, 200)), min_size=4, max_size=12)


@sub("interleaving", common.with_flag(gen.specs(cluster=(0, 0, 0, 0, 1), max_k=3, max_r=2, over={"nt": st.sampled_from([1, 1, 2]), "kde": st.just(0)}), s=gen.SEED,
                                      who=st.lists(st.integers(0, 20), min_size=2, max_size=3), prog=PROG), quick=450)
def interleaving(spec, cx):
    sp = dict(spec["c"])
    if sp["cl"] and sp["kind"] not in ("plr", "pliv"):
        sp["cl"] = 0
    c = common.need_cells(gen.Case(sp))
    if c.kind == "iivm" and not (c.o["at"] and c.o["nv"]):
        raise Skip("subgroup assumption does not hold for the companions")
    I = inputs(c, spec["s"])
    B = builders(c)
    names = sorted(B)
    who = [names[w % len(names)] for w in spec["who"]]
    pristine = copy.deepcopy({k: v for k, v in I.items()})
    s0 = snap(I, c)
    ms = [quiet(lambda w=w: B[w](I)) for w in who]
    equal(snap(I, c), s0, f"inputs after constructing {who}")
    for m in ms:
        do("split", m, I, c)
    equal(snap(I, c), s0, "inputs after setting the splitting")
    prog = [(i % len(ms), op_names(c, ms[i % len(ms)])) for i, _ in spec["prog"]]
    prog = [(i, L[o % len(L)]) for (i, L), (_, o) in zip(prog, spec["prog"])]
    first = set()
    for q, (i, op) in enumerate(prog):  # the first operation of every model is a fit
        if i not in first:
            first.add(i)
            prog[q] = (i, "fit")
    held = []  # (owner, object, frozen, description)
    log = []
    for q, (i, op) in enumerate(prog):
        m = ms[i]
        cur = m.framework
        others = [(j, freeze(o)) for j, o in enumerate(ms) if j != i]
        r, err = attempt(op, m, I, c, 1000 + q)
        log.append(err)
        w = f"{who[i]} #{i}: {op}" + (f" (refused: {err})" if err else "")
        equal(snap(I, c), s0, f"inputs after {w}")
        for j, b in others:
            equal(freeze(ms[j]), b, f"{who[j]} #{j} after {w}")
        for h, (own, o, b, d) in enumerate(held):
            if own == i and op in OWN and any(o is x for x in _frameworks(m)):
                held[h] = (own, o, freeze(o), d)
            else:
                equal(freeze(o), b, f"{d} after {w}")
        if r is not None and not err:
            for k, x in enumerate(r if isinstance(r, list) and op in ("combine", "het") else [r]):
                held.append((i, x, freeze(x), f"result {k} of {who[i]} #{i}: {op} (step {q})"))
        held = held[-12:]
    # every model on its own, with its own copy of everything
    for i, w in enumerate(who):
        J = copy.deepcopy(pristine)
        m = quiet(lambda: B[w](J))
        do("split", m, J, c)
        for q, (j, op) in enumerate(prog):
            if j == i:
                _, err = attempt(op, m, J, c, 1000 + q)
                if err != log[q]:
                    raise Fail(f"{w} #{i}: {op} {'refused' if log[q] else 'accepted'} in company but {'refused' if err else 'accepted'} alone ({err or log[q]})")
        equal(freeze(ms[i]), freeze(m), f"{w} #{i} in company, compared with its own history alone ({[o for j, o in prog if j == i]})", 1e-6)
    fitted = sum(m.framework is not None for m in ms)
    cx.label(c.kind, *[w for w in who], *{op for _, op in prog}, "refused step" if any(log) else "", f"clusters={c.cl}")
    cx.nontrivial(fitted >= 2 and sum(e is None for e in log) >= 3)


def _frameworks(m):
    out = [m.framework]
    for k in ("modellist", "modellist_0", "modellist_1"):
        out += [x.framework for x in getattr(m, k, None) or [] if x is not None]
    return out


# ---------------------------------------------------------------- result objects
@sub("results", st.fixed_dictionaries({"f": fw.specs(max_p=3, max_r=3, max_n=30), "prog": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 12), st.sampled_from([2.0, 1, 1.0, 0, -1, 0.5])), min_size=2, max_size=10)}),
     quick=450)
def results(spec, cx):
    M = fw.model(spec["f"])
    dicts = [M.dict(), fw.model(spec["f"], salt=1).dict()]
    keep = freeze(dicts)
    pool = [dml.DoubleMLFramework(d) for d in dicts]
    names = ["f0", "f1"]
    done = set()
    for a, b, o, k in spec["prog"]:
        i = a % len(pool)
        x, y = pool[a % len(pool)], pool[b % len(pool)]
        before = [freeze(p) for p in pool]
        new = None
        touched = None
        try:
            if o == 0:
                new = x + y
            elif o == 1:
                new = x - y
            elif o == 2:
                new = x * k
            elif o == 3:
                new = k * y
            elif o == 4:
                new = concat([x, y])
            elif o == 10:
                new = concat([x])
            elif o in (5, 11):
                quiet(lambda: x.bootstrap(n_rep_boot=7))
                touched = i
            elif o in (6, 12):
                nh = np.full(x.n_thetas, 0.2)
                h = nh.copy()
                quiet(lambda: x.sensitivity_analysis(cf_y=0.1, null_hypothesis=nh))
                ensure(np.array_equal(nh, h), "array of null hypotheses")
                touched = i
            elif o == 7:
                L = [f"n{i}" for i in range(x.n_thetas)]
                x.treatment_names = L
                touched = i
            elif o == 8:
                x.confint(joint=x.boot_method is not None)
                _ = x.summary
                if x.boot_method is not None:
                    quiet(lambda: x.p_adjust())
            else:
                new = copy.deepcopy(x)
        except (ValueError, NotImplementedError):
            pass
        done.add(o)
        for q, (p, f, nm) in enumerate(zip(pool, before, names)):
            if q != touched:
                equal(freeze(p), f, f"{nm} after operation {o} on others")
        equal(freeze(dicts), keep, f"caller's dictionaries after operation {o}")
        if new is not None and len(pool) < 8:
            pool.append(new)
            names.append(f"f{len(pool) - 1}")
    cx.label(*[f"op{o}" for o in done], f"clusters={spec['f']['cl']}")
    cx.nontrivial(len(pool) > 2 and bool(done & {5, 6, 7, 11, 12}))


# ---------------------------------------------------------------- data objects
@sub("data", common.with_flag(gen.specs(cluster=(0, 0, 1, 2), max_k=2, max_r=1, over={"nt": st.sampled_from([1, 2])}), arrays=st.booleans(), index=st.sampled_from(["range", "shuffled", "text"]),
                              ints=st.booleans(), prog=st.lists(st.integers(0, 9), min_size=1, max_size=6)), quick=350)
def data(spec, cx):
    sp = dict(spec["c"])
    if sp["cl"] and sp["kind"] not in ("plr", "pliv"):
        sp["cl"] = 0
    c = gen.Case(sp)
    df = c.df.copy()
    if spec["ints"]:
        df["X1"] = np.arange(c.n)
        df["y"] = df["y"].round().astype(int)
    if spec["index"] == "shuffled":
        df.index = np.random.default_rng(0).permutation(c.n) + 5
    elif spec["index"] == "text":
        df.index = [f"r{i}" for i in range(c.n)]
    b = freeze(df)
    if spec["arrays"]:
        a = [c.X.copy(), c.Y.copy(), c.D.copy() if c.nt > 1 else c.D[:, 0].copy()]
        kw = {}
        if c.Z is not None:
            kw["z"] = c.Z.copy()
        if c.T is not None:
            kw["t"] = c.T.copy()
        if c.S is not None:
            kw["s"] = c.S.copy()
        ab = freeze([a, kw])
        if c.cl:
            C = c.C.copy()
            d1 = dml.DoubleMLClusterData.from_arrays(*a, cluster_vars=C, **kw)
            ensure(np.array_equal(C, c.C), "array of clusters")
        else:
            d1 = dml.DoubleMLData.from_arrays(*a, **kw)
        equal(freeze([a, kw]), ab, "arrays handed to from_arrays")
        d2 = None
    else:
        a = kw = ab = None
        xc = list(c.xn)
        d1 = c.data(df=df, x_cols=xc)
        d2 = c.data(df=df, x_cols=xc)
        f2 = freeze(d2)
        ensure(xc == c.xn, "list of covariates")
    xs = list(d1.x_cols)
    for o in spec["prog"]:
        try:
            if o == 0 and len(xs) > 1:
                d1.x_cols = xs[:-1]
            elif o == 1:
                d1.x_cols = None
            elif o == 2 and len(d1.d_cols) > 1:
                d1.set_x_d(d1.d_cols[-1])
            elif o == 3:
                d1.use_other_treat_as_covariate = not d1.use_other_treat_as_covariate
            elif o == 4 and len(xs) > 1:
                d1.x_cols = xs[1:]
                d1.y_col = xs[0]
            elif o == 5:
                d1.force_all_x_finite = False
            elif o == 6:
                str(d1), d1.data, d1.all_variables if hasattr(d1, "all_variables") else None
            elif o == 7 and d1.z_cols:
                d1.z_cols = None
            elif o == 8 and len(xs) > 1:
                d1.d_cols = xs[0]
            elif o == 9:
                copy.deepcopy(d1).x_cols = xs[:1]
        except (ValueError, TypeError):
            pass
        equal(freeze(df), b, f"caller's table after data operation {o}")
        if ab is not None:
            equal(freeze([a, kw]), ab, f"caller's arrays after data operation {o}")
        if d2 is not None:
            equal(freeze(d2), f2, f"second data object on the same table after operation {o} on the first")
    cx.label("arrays" if spec["arrays"] else "table", c.kind, f"clusters={c.cl}")
    cx.nontrivial()


# ---------------------------------------------------------------- projections, trees, designs, global learners
@sub("others", st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(20, 50), "k": st.integers(1, 3), "what": st.sampled_from(["blp", "gate", "tree", "global"]),
                                      "cov": st.sampled_from(["HC0", "HC3", "nonrobust"]), "depth": st.integers(1, 3), "joint": st.booleans()}), quick=300)
def others(spec, cx):
    rng = np.random.default_rng(spec["seed"])
    n, k = spec["n"], spec["k"]
    y = rng.normal(size=n)
    B = pd.DataFrame(rng.normal(size=(n, k)), columns=[f"b{i}" for i in range(k)])
    B2 = pd.DataFrame(rng.normal(size=(n, k)), columns=[f"b{i}" for i in range(k)])
    w = rng.random(n)
    keep = freeze([y, B, B2, w])
    if spec["what"] in ("blp", "gate"):
        if spec["what"] == "gate":
            B = pd.DataFrame(np.eye(k + 1, dtype=bool)[rng.permutation(np.arange(n) % (k + 1))], columns=[f"g{i}" for i in range(k + 1)])
            keep = freeze([y, B, B2, w])
        m1, m2 = (DoubleMLBLP(y, B, is_gate=spec["what"] == "gate") for _ in range(2))
        m1.fit(cov_type=spec["cov"])
        f1 = freeze([m1, np.asarray(m1.blp_model.params), m1.confint()])
        m2.fit(cov_type="HC1")
        quiet(lambda: m2.confint(B.iloc[: n // 2] if spec["what"] == "gate" else B2, joint=spec["joint"], n_rep_boot=10))
        equal(freeze([m1, np.asarray(m1.blp_model.params), m1.confint()]), f1, "predictor after a second one used the same inputs")
    elif spec["what"] == "tree":
        m1, m2 = DoubleMLPolicyTree(y, B, depth=spec["depth"]), DoubleMLPolicyTree(y, B, depth=1)
        m1.fit()
        p = m1.predict(B2)
        fp = freeze(p)
        m2.fit()
        m2.predict(B)
        ensure("pred_treatment" not in B2.columns and "pred_treatment" not in B.columns, "caller's features gained a column")
        equal(freeze(m1.predict(B2)), fp, "tree after a second one used the same inputs")
        equal(freeze(p), fp, "predictions obtained earlier")
    else:
        base_r, base_c = LinearRegression(), LogisticRegression()
        fb = freeze([base_r, base_c])
        yc = (y > 0).astype(int)
        yb = yc.copy()
        g1, g2 = GlobalRegressor(base_r), GlobalRegressor(base_r)
        g1.fit(B, y, sample_weight=w)
        p1 = g1.predict(B2)
        q1 = p1.copy()
        g2.fit(B.to_numpy(), -y)
        h = GlobalClassifier(base_c)
        h.fit(B.to_numpy(), yc, sample_weight=w)
        h.predict_proba(B2.to_numpy())
        ensure(np.array_equal(p1, q1) and np.array_equal(g1.predict(B2), q1), "global learner after a second one used the same base learner")
        equal(freeze([base_r, base_c]), fb, "base learners")
        ensure(np.array_equal(yc, yb), "labels")
    equal(freeze([y, B, B2, w]), keep, "inputs")
    cx.label(spec["what"])
    cx.nontrivial()


@sub("designs", st.fixed_dictionaries({"c": c25.CASE, "level": st.sampled_from([0.8, 0.95])}), quick=80)
def designs(spec, cx):
    s = dict(spec["c"], kw={}, r=min(spec["c"]["r"], 2))
    o = c25.RD(s)
    df = o.frame()
    b = freeze(df)
    G = Cls() if s["ybin"] == 1 else Reg()
    P = Cls() if s["fuzzy"] else None
    lb = freeze([G, P])
    d = dml.DoubleMLData(df, "y", "d", o.xn, s_col="s")
    db = freeze(d)

    def mk(h):
        np.random.seed(4)
        return dml.rdd.RDFlex(d, G, P, fuzzy=s["fuzzy"], cutoff=o.c, n_folds=s["k"], n_rep=s["r"], h_fs=h, fs_specification=s["fs"], fs_kernel=o.kern)
    m1 = c25.guarded(lambda: mk(s["h"]))
    c25.guarded(lambda: m1.fit(n_iterations=s["it"]))
    f1 = freeze(m1)
    m2 = c25.guarded(lambda: mk(0.9))
    c25.guarded(m2.fit)
    m2.confint(level=spec["level"])
    equal(freeze(df), b, "caller's table")
    equal(freeze(d), db, "data object")
    equal(freeze([G, P]), lb, "learners")
    equal(freeze(m1), f1, "first design after a second one used the same inputs")
    cx.label("fuzzy" if s["fuzzy"] else "sharp")
    cx.nontrivial()
