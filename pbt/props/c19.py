"""C19: learner diagnostics - targets, losses, metrics, stored models."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import close, ensure, raises, same, sub
from ..learners import Cls

RULE = """A case is a generated data set and model (all classes, clusters for part of them), splitting, storing options and possibly
supplied predictions for some nuisance functions; targets are compared with the reference subpopulations, losses and metrics are
recomputed from the reference targets and the stored predictions, stored models are applied to the test rows of their fold. Non-trivial:
some nuisance function has a proper subpopulation or the case has several repetitions or treatments."""
ASSUMPTIONS = ["the target of the treatment projection of PLIV-XZ is itself estimated and only checked for consistency with its loss",
               "no loss (missing) is accepted for nuisance functions with supplied predictions or without a learner"]

OPEN = ((("plr", "pliv"), (1, 2)), (gen.KINDS, (0,)))


def any_spec(max_r=3):
    return st.one_of(gen.specs(max_k=3, max_r=max_r), gen.specs(max_k=4, max_r=max_r), gen.specs(kinds=("plr", "pliv"), cluster=(1, 2), max_k=3, max_r=2))


def is_cls(c, nm):
    return isinstance(c.learners[c.slot(nm)], Cls)


def loss_of(t, p, classifier):
    t, p = np.asarray(t, float), np.asarray(p, float)
    ok = ~np.isnan(t)
    t, p = t[ok], p[ok]
    if classifier:
        p = np.minimum(np.maximum(p, 1e-15), 1 - 1e-15)
        return -np.mean(np.where(t == 1, np.log(p), np.log1p(-p)))
    return np.sqrt(np.mean((t - p) ** 2))


def subpop(c, nm, j):
    """Observations on which a nuisance function is defined, from the documentation."""
    n, d = c.n, c.D[:, j]
    z = None if c.Z is None else c.Z[:, 0]
    k = c.kind
    if k in ("irm", "did") and nm in ("ml_g0", "ml_g1"):
        return d == int(nm[-1])
    if k == "apo" and nm.startswith("ml_g"):
        return (d == c.o["lev"]) == (nm[-1] == "1")
    if k == "iivm" and nm != "ml_m":
        return z == int(nm[-1])
    if k == "ssm" and nm.startswith("ml_g"):
        return (d == int(nm[-1])) & (c.S == 1)
    if k == "didcs" and nm.startswith("ml_g"):
        return (d == int(nm[6])) & (c.T == int(nm[-1]))
    if k in ("pq", "cvar") and nm == "ml_g":
        return d == c.o["t"]
    if k == "lpq" and nm != "ml_m_z":
        return z == int(nm[-1])
    return np.ones(n, bool)


def check_diag(c, m, ext_names=(), refs=True):
    """Targets and losses of every nuisance function, repetition, treatment."""
    stat = {"sub": 0}
    for r in range(c.r):
        for j, d in enumerate(c.dn):
            N = ref.nuisances(c, j, r) if refs else None
            for nm in c.nuis_names():
                w = f"{c.kind} {nm} treatment {d} rep {r}"
                p = m.predictions[nm][:, r, j]
                t = np.asarray(m.nuisance_targets[nm][:, r, j], float)
                L = np.asarray(m.nuisance_loss[nm])[r, j]
                s = subpop(c, nm, j)
                if nm in ext_names and np.all(np.isnan(t)):
                    ensure(np.isnan(L) or L > 0, w + ": loss with supplied predictions")
                    continue
                if np.all(np.isnan(t)):
                    ensure(c.kind == "pliv" and c.o["var"] in ("xz", "xzm") and nm == "ml_r" or c.kind == "iivm" and nm in ("ml_r0", "ml_r1"), w + ": no target stored")
                    continue
                if c.kind == "iivm" and (nm == "ml_r0" and not c.o["at"] or nm == "ml_r1" and not c.o["nv"]):
                    ensure(np.isnan(L) or L < 1e-9, w + ": loss of a constant that is known")
                    continue
                same(~np.isnan(t), s, w + ": observations with a target")
                if not s.all():
                    stat["sub"] += 1
                if N is not None and nm in N and N[nm].target is not None and nm not in ext_names:
                    close(t, N[nm].target, w + ": target", 1e-7, 1e-9)
                elif nm not in ("ml_r",) and not (c.kind == "iivm" and nm in ("ml_r0", "ml_r1")) and nm in ext_names:
                    base = {"irm": c.Y, "apo": c.Y, "iivm": c.Y, "did": c.Y, "didcs": c.Y}.get(c.kind)
                    if nm.startswith("ml_g") and base is not None:
                        close(t[s], base[s], w + ": target")
                close(L, loss_of(t, p, is_cls(c, nm)), w + ": loss", 1e-7, 1e-12)
    return stat


@sub("targets_losses", st.fixed_dictionaries({"c": any_spec(), "store": st.booleans(), "x": st.booleans(), "s": gen.SEED}), quick=900)
def targets_losses(spec, cx):
    c = common.need_cells(gen.Case(spec["c"]))
    m = c.make()
    ensure(m.nuisance_loss is None and m.nuisance_targets is None and m.predictions is None and m.models is None, "diagnostics before fitting")
    raises((ValueError, AttributeError, TypeError), lambda: m.evaluate_learners(), "evaluation before fitting")
    ext_names = []
    kw = {}
    if spec["x"] and c.kind in common.EXTERNAL and not (c.kind == "pliv" and c.o["var"] in ("z", "zm", "xz", "xzm")) and not (
            c.kind in ("plr", "pliv") and "ml_g" in c.learners):
        rng = np.random.default_rng(spec["s"])
        names = c.nuis_names()
        ext_names = [nm for nm in names if rng.random() < 0.4]
        if ext_names:
            kw["external_predictions"] = common.external(c, names=ext_names, seed=spec["s"])
    m.fit(**kw)
    stat = check_diag(c, m, ext_names, refs=True)
    L = {k: np.array(v) for k, v in m.nuisance_loss.items()}
    txt = str(m)
    for nm in c.nuis_names():
        lab = "Log Loss" if is_cls(c, nm) else "RMSE"
        ensure(f"Learner {nm} {lab}: {m.nuisance_loss[nm]}" in txt, f"printed loss of {nm}")
    if not spec["store"]:
        m2 = c.make()
        m2.fit(store_predictions=False, **kw)
        ensure(m2.predictions is None and m2.nuisance_targets is None, "predictions or targets kept although not requested")
        for nm in c.nuis_names():
            close(m2.nuisance_loss[nm], L[nm], f"loss of {nm} without storing")
        raises((ValueError, TypeError), lambda: m2.evaluate_learners(), "evaluation without stored predictions")
    cx.label(c.kind, f"cl={c.cl}", "ext" if kw else "own")
    cx.nontrivial(stat["sub"] > 0 or c.r > 1 or c.nt > 1)


@sub("evaluate", st.fixed_dictionaries({"c": any_spec(), "s": gen.SEED}), quick=350)
def evaluate(spec, cx):
    c = common.need_cells(gen.Case(spec["c"]))
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    m.fit()
    names = c.nuis_names()
    calls = []

    def metric(y_true, y_pred):
        calls.append((np.array(y_true, float), np.array(y_pred, float)))
        ok = ~np.isnan(y_true)
        if not ok.any():
            return -7.0
        w = np.arange(1, y_true.size + 1)[ok.ravel()]
        return float(np.sum(w * (y_true[ok] - 2.0 * y_pred[ok])))

    pick = [nm for nm in names if rng.random() < 0.7] or names[:1]
    pick = [pick[i] for i in rng.permutation(len(pick))]
    res = m.evaluate_learners(learners=list(pick), metric=metric)
    ensure(set(res) == set(pick), f"evaluated learners {sorted(res)} instead of {sorted(pick)}")
    ensure(len(calls) == len(pick) * c.r * c.nt, "number of metric evaluations")
    for nm in pick:
        ensure(res[nm].shape == (c.r, c.nt), f"shape of the evaluation of {nm}")
        for r in range(c.r):
            for j in range(c.nt):
                t, p = m.nuisance_targets[nm][:, r, j], m.predictions[nm][:, r, j]
                close(res[nm][r, j], metric(np.reshape(t, (1, -1)), np.reshape(p, (1, -1))), f"{c.kind} evaluation of {nm} rep {r} treatment {j}")
    # default metric: root mean squared error where targets exist
    full = [nm for nm in names if not np.isnan(np.asarray(m.nuisance_targets[nm], float)).all(axis=0).any()]
    if full:
        res = m.evaluate_learners(learners=full)
        for nm in full:
            for r in range(c.r):
                for j in range(c.nt):
                    close(res[nm][r, j], loss_of(m.nuisance_targets[nm][:, r, j], m.predictions[nm][:, r, j], False), f"default evaluation of {nm} rep {r} treatment {j}")
        if set(full) == set(m.params_names):
            res2 = m.evaluate_learners()
            for nm in full:
                close(res2[nm], res[nm], f"evaluation of all learners: {nm}")
    before = m.predictions[names[0]].copy()
    raises(ValueError, lambda: m.evaluate_learners(learners=names + ["ml_nope"]), "unknown learner")
    raises(TypeError, lambda: m.evaluate_learners(metric="rmse"), "metric that is no function")
    raises(ValueError, lambda: m.evaluate_learners(learners=names[:1], metric=lambda y_true, y_pred: np.nan), "metric that is not finite")
    same(m.predictions[names[0]], before, "predictions after evaluation")
    cx.label(c.kind)
    cx.nontrivial(c.r * c.nt * len(pick) > 1)


def features(c, nm, r, j, models, f):
    """Covariates a stored model of a nuisance function was documented to use."""
    X, d = c.x_for(j), c.D[:, j]
    if c.kind == "pliv" and c.o["var"] in ("z", "zm"):
        return np.column_stack((X, c.Z))
    if c.kind == "pliv" and c.o["var"] in ("xz", "xzm"):
        return np.column_stack((X, c.Z)) if nm == "ml_m" else X
    if c.kind == "apo" and nm == "ml_g_d_lvl0":
        return np.column_stack((d, X))
    if c.kind == "ssm":
        if c.o["score"] == "missing-at-random":
            return np.column_stack((X, d)) if nm == "ml_pi" else X
        dx = np.column_stack((X, d, c.Z[:, 0]))
        if nm == "ml_pi":
            return dx
        return np.column_stack((X, models["ml_pi"][c.dn[j]][r][f].predict_proba(dx)[:, 1]))
    return X


@sub("models", st.fixed_dictionaries({"c": any_spec(), "store": st.booleans(), "par": st.booleans()}), quick=400)
def models(spec, cx):
    c = common.need_cells(gen.Case(spec["c"]))
    m = c.make()
    if spec["par"]:
        rng = np.random.default_rng(spec["c"]["seed"])
        for nm in c.nuis_names():
            for d in c.dn:
                m.set_ml_nuisance_params(nm, d, [[{"alpha": float(rng.choice([0.05, 0.7, 4.0]))} for _ in c.smpls[0]] for _ in range(c.r)])
    m.fit(store_models=True)
    P = m.predictions
    bad = 0
    for nm in c.nuis_names():
        for j, d in enumerate(c.dn):
            for r in range(c.r):
                M = m.models[nm][d][r]
                if M is None:
                    ensure(c.kind == "iivm" and nm in ("ml_r0", "ml_r1"), f"{c.kind}: models of {nm} not stored")
                    bad += 1
                    continue
                ensure(len(M) == len(c.smpls[r]), f"{c.kind} {nm}: {len(M)} models for {len(c.smpls[r])} folds")
                ensure(len({id(x) for x in M}) == len(M) and c.learners[c.slot(nm)] not in [x for x in M if x is c.learners[c.slot(nm)]], "models shared between folds")
                for f, (tr, te) in enumerate(c.smpls[r]):
                    F = features(c, nm, r, j, m.models, f)[te]
                    p = M[f].predict_proba(F)[:, 1] if is_cls(c, nm) else M[f].predict(F)
                    close(P[nm][te, r, j], ref.stored_pred(c, nm, p), f"{c.kind} {nm} treatment {d} rep {r} fold {f}: prediction of the stored model", 1e-7, 1e-9)
                    if spec["par"]:
                        same(M[f].alpha, m.params[nm][d][r][f]["alpha"], f"parameter of the stored model of {nm}")
    if not spec["store"]:
        m.fit(store_models=False)
        ensure(m.models is None, "models of an earlier fit are still reported")
    cx.label(c.kind, f"cl={c.cl}")
    cx.nontrivial(len(c.smpls[0]) * c.r * c.nt > 2)
