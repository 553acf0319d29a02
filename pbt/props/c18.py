"""C18: hyperparameters and tuning."""
import copy

import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.metrics import make_scorer, mean_absolute_error

import doubleml as dml

from .. import common, gen, ref
from ..core import Fail, Skip, close, ensure, raises, same, sub
from ..learners import Cls, Reg

RULE = """Routing: a case assigns random ridge penalties (and second parameters) to a random subset of nuisance functions and treatments,
once or per repetition and fold, possibly overwritten; predictions are compared with independently configured learners. Tuning: a case
chooses the grids, global or fold-specific search, grid or randomized search, scoring (default, by name, callable) and number of folds;
each returned search is compared with a fresh learner fitted on the nuisance function's own sample. Non-trivial: at least two different
parameter values in play (routing) / at least two candidates with different scores and two searches (tuning)."""
ASSUMPTIONS = ["the crude quantile approximations used as targets when tuning the quantile models are taken as documented in the source comments",
               "SSM nonignorable: the outcome and treatment learners are tuned without the estimated selection probability (as implemented)",
               "cross-validation splits inside a search are random: candidates' scores are read from the returned search"]

ALPHAS = [0.02, 0.2, 0.7, 2.0, 8.0]


def draw_params(rng, est):
    p = {"alpha": float(rng.choice(ALPHAS))}
    if rng.random() < 0.4:
        p.update({"gain": float(rng.choice([0.5, 1.0, 2.5]))} if isinstance(est, Cls) else {"shift": float(rng.choice([0.0, 0.3, -0.5]))})
    return p


@sub("routing", st.fixed_dictionaries({"c": gen.specs(cluster=(0, 0, 0, 1), max_k=3, max_r=3), "s": gen.SEED, "n": st.integers(1, 6), "refit": st.booleans()}),
     quick=700)
def routing(spec, cx):
    sp = spec["c"]
    if sp["cl"] and sp["kind"] not in ("plr", "pliv"):
        sp = dict(sp, cl=0)
    c = common.need_cells(gen.Case(sp))
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    nf = len(c.smpls[0])
    names = [n for n in c.nuis_names()]
    truth = {nm: {d: [[None] * nf for _ in range(c.r)] for d in c.dn} for nm in names}

    def check(what):
        m.fit()
        for r in range(c.r):
            for j, d in enumerate(c.dn):
                P = {nm: [p or {} for p in truth[nm][d][r]] for nm in names}
                N = ref.nuisances(c, j, r, params=P)
                for nm in names:
                    close(m.predictions[nm][:, r, j], ref.stored_pred(c, nm, N[nm].preds), f"{c.kind} {nm} treatment {d} rep {r} ({what})", 1e-6, 1e-8)

    vals = set()
    for i in range(spec["n"]):
        nm = names[int(rng.integers(len(names)))]
        d = c.dn[int(rng.integers(c.nt))]
        est = c.learners[c.slot(nm)]
        how = int(rng.integers(4))
        if how == 0:
            p = draw_params(rng, est)
            vals.add(str(p))
            arg, truth[nm][d] = dict(p), [[p] * nf for _ in range(c.r)]
        elif how == 3 and i > 0:
            arg, truth[nm][d] = None, [[None] * nf for _ in range(c.r)]
        else:
            q = [[draw_params(rng, est) for _ in range(nf)] for _ in range(c.r)]
            vals |= {str(p) for x in q for p in x}
            arg, truth[nm][d] = copy.deepcopy(q), q
        m.set_ml_nuisance_params(nm, d, arg)
        got = m.get_params(nm)[d]
        if arg is not None:
            same([[dict(x) for x in row] for row in got], truth[nm][d], f"get_params of {nm} after setting them")
        if spec["refit"] and i == 0:
            check("first fit")
    check("final fit")
    cx.label(c.kind, f"treatments {c.nt}", f"r={c.r}")
    cx.nontrivial(len(vals) > 1)


@sub("refused", st.fixed_dictionaries({"c": gen.specs(max_k=3, max_r=2), "s": gen.SEED,
                                       "bad": st.sampled_from(["learner", "treatment", "reps", "folds", "unknown_param"])}), quick=120)
def refused(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    nm = c.nuis_names()[int(rng.integers(len(c.nuis_names())))]
    d = c.dn[int(rng.integers(c.nt))]
    p = {"alpha": 0.7}
    m.set_ml_nuisance_params(nm, d, dict(p))
    before = copy.deepcopy(m.params)
    b = spec["bad"]
    E = (ValueError, TypeError, AssertionError, KeyError)
    if b == "learner":
        raises(E, lambda: m.set_ml_nuisance_params("ml_nope", d, p), b)
    elif b == "treatment":
        raises(E, lambda: m.set_ml_nuisance_params(nm, "nope", p), b)
    elif b == "reps":
        raises(E, lambda: m.set_ml_nuisance_params(nm, d, [[dict(p)] * c.k] * (c.r + 1)), b)
    elif b == "folds":
        raises(E, lambda: m.set_ml_nuisance_params(nm, d, [[dict(p)] * (c.k + 1)] * c.r), b)
    else:
        if c.kind == "iivm" and nm in ("ml_r0", "ml_r1") or c.kind == "plr" and c.o["score"] == "partialling out" and nm == "ml_g":
            raise Skip("nuisance function without a learner")
        m.set_ml_nuisance_params(nm, d, {"nope": 1})
        raises(E, lambda: m.fit(), b)
        return cx.nontrivial()
    same(m.params, before, f"parameters after a refused request ({b})")
    cx.label(b)
    cx.nontrivial()


@sub("composite", st.fixed_dictionaries({"c": gen.specs(kinds=("apo", "pq", "cvar"), max_k=3, max_r=2), "s": gen.SEED}), quick=80)
def composite(spec, cx):
    """Parameters set on the single models of a composite model are used."""
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    if c.kind == "apo":
        m = dml.DoubleMLAPOS(c.data(), c.learners["ml_g"], c.learners["ml_m"], treatment_levels=[0, 1, 2], weights=c.weights_arg, n_folds=c.k,
                             n_rep=c.r, draw_sample_splitting=False, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"])
        m.set_sample_splitting(c.smpls)
        parts = [(mm, gen.Case(dict(spec["c"], o=dict(spec["c"]["o"], lev=i)))) for i, mm in enumerate(m.modellist)]
    else:
        qs = [0.4, 0.6]
        m = dml.DoubleMLQTE(c.data(), c.learners["ml_g"], c.learners["ml_m"], quantiles=qs, score={"pq": "PQ", "cvar": "CVaR"}[c.kind],
                            n_folds=c.k, n_rep=c.r, draw_sample_splitting=False, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"])
        m.set_sample_splitting(c.smpls)
        parts = [(mm, gen.Case(dict(spec["c"], o=dict(spec["c"]["o"], t=t, q=q)))) for t, L in enumerate((m.modellist_0, m.modellist_1)) for q, mm in zip(qs, L)]
    P = []
    for mm, ci in parts:
        e = {}
        for nm in ci.nuis_names():
            if rng.random() < 0.7:
                e[nm] = draw_params(rng, ci.learners[ci.slot(nm)])
                mm.set_ml_nuisance_params(nm, ci.dn[0], dict(e[nm]))
        P.append(e)
    m.fit()
    after = m.modellist if c.kind == "apo" else list(m.modellist_0) + list(m.modellist_1)
    for i, (mm, ci) in enumerate(parts):
        for r in range(c.r):
            N = ref.nuisances(ci, 0, r, params=P[i])
            for nm in ci.nuis_names():
                close(after[i].predictions[nm][:, r, 0], ref.stored_pred(ci, nm, N[nm].preds), f"composite {c.kind} part {i} {nm}", 1e-6, 1e-8)
    cx.label(c.kind)
    cx.nontrivial(len({str(e) for e in P}) > 1)


# ---------------------------------------------------------------- tuning
def prefer_small(est, X, y):
    return -float(est.alpha)


def prefer_large(est, X, y):
    return float(est.alpha)


def prefer_mid(est, X, y):
    return -abs(np.log(est.alpha / 0.7))


MAE = make_scorer(mean_absolute_error, greater_is_better=False)


def key_of(c, nm):
    if c.kind == "lpq":
        return nm
    return nm[3:] + "_tune"


def search_of(c, tr, nm):
    if c.kind == "pliv" and nm.startswith("ml_m_"):
        return tr["m_tune"][nm[5:]]
    return tr[key_of(c, nm)]


def own_sample(c, j, nm, tr, S, idx, smpls):
    """Features, target, rows on which nuisance function nm is tuned for the training set tr; S: name -> list of searches."""
    o, k = c.o, c.kind
    X, y, d = c.x_for(j), c.Y, c.D[:, j]
    rows = np.asarray(tr)
    sel = lambda cond: rows[cond[rows]]  # noqa: E731
    if k == "plr":
        if nm == "ml_l":
            return X, y, rows
        if nm == "ml_m":
            return X, d, rows
        l, m = np.full(c.n, np.nan), np.full(c.n, np.nan)
        for i, (t, _) in enumerate(smpls):
            l[t] = S["ml_l"][i].predict(X[t])
            m[t] = S["ml_m"][i].predict_proba(X[t])[:, 1] if o["mcls"] else S["ml_m"][i].predict(X[t])
        th = np.nansum((d - m) * (y - l)) / np.nansum((d - m) ** 2)
        return X, y - th * d, rows
    if k == "pliv":
        Z, v = c.Z, o["var"]
        XZ = np.column_stack((X, Z))
        if v in ("z", "zm"):
            return XZ, d, rows
        if nm == "ml_l":
            return X, y, rows
        if v in ("xz", "xzm"):
            if nm == "ml_m":
                return XZ, d, rows
            t = np.full(c.n, np.nan)
            t[rows] = S["ml_m"][idx].predict(XZ[rows])
            return X, t, rows
        if nm.startswith("ml_m"):
            return X, Z[:, c.zn.index(nm[5:]) if nm.startswith("ml_m_") else 0], rows
        if nm == "ml_r":
            return X, d, rows
        l, m, r = (np.full(c.n, np.nan) for _ in range(3))
        for i, (t, _) in enumerate(smpls):
            l[t], m[t], r[t] = (S[q][i].predict(X[t]) for q in ("ml_l", "ml_m", "ml_r"))
        th = np.nansum((Z[:, 0] - m) * (y - l)) / np.nansum((d - r) * (Z[:, 0] - m))
        return X, y - th * d, rows
    if k in ("irm", "did"):
        return (X, d, rows) if nm == "ml_m" else (X, y, sel(d == int(nm[-1])))
    if k == "apo":
        a = d == o["lev"]
        if nm == "ml_m":
            return X, a.astype(float), rows
        return (X, y, sel(a)) if nm.endswith("1") else (np.column_stack((d, X)), y, sel(~a))
    if k == "iivm":
        z = c.Z[:, 0]
        if nm == "ml_m":
            return X, z, rows
        return X, (d if nm.startswith("ml_r") else y), sel(z == int(nm[-1]))
    if k == "ssm":
        s = c.S
        if nm == "ml_pi":
            return np.column_stack((X, d) + ((c.Z[:, 0],) if c.Z is not None else ())), s, rows
        if nm == "ml_m":
            return X, d, rows
        return X, y, sel((d == int(nm[-1])) & (s == 1))
    if k == "didcs":
        return (X, d, rows) if nm == "ml_m" else (X, y, sel((d == int(nm[6])) & (c.T == int(nm[-1]))))
    q, tv = o["q"], o["t"]
    qa = np.quantile(y[d == tv], q)
    if k == "pq":
        return (X, d, rows) if nm == "ml_m" else (X, (y <= qa).astype(float), sel(d == tv))
    if k == "cvar":
        return (X, d, rows) if nm == "ml_m" else (X, np.maximum(qa, (y - q * qa) / (1 - q)), sel(d == tv))
    z = c.Z[:, 0]
    if nm == "ml_m_z":
        return X, z, rows
    return X, (d if nm.startswith("ml_m") else ((d == tv) & (y <= qa)).astype(float)), sel(z == int(nm[-1]))


@sub("tuning", st.fixed_dictionaries({
    "c": gen.specs(cluster=(0, 0, 0, 1), max_k=3, max_r=2), "s": gen.SEED, "on_folds": st.booleans(), "mode": st.sampled_from(["grid", "grid", "rand"]),
    "scoring": st.sampled_from(["none", "none", "dict", "partial", "named"]), "kf": st.integers(2, 4), "set": st.sampled_from([True, True, True, False]),
    "ret": st.sampled_from([True, True, True, False]), "pre": st.booleans(), "two": st.booleans()}), quick=500)
def tuning(spec, cx):
    sp = spec["c"]
    if sp["cl"] and sp["kind"] not in ("plr", "pliv"):
        sp = dict(sp, cl=0)
    c = common.need_cells(gen.Case(sp))
    rng = np.random.default_rng(spec["s"])
    m = c.make()
    slots = m.learner_names
    names = c.nuis_names()
    base = {s: next(c.learners[c.slot(n)] for n in names if n == s or c.slot(n) == s or n.startswith(s)) for s in slots}
    slot_of = {nm: (nm if c.kind == "lpq" else c.slot(nm)) for nm in names}
    grids = {}
    for s in slots:
        al = [float(a) for a in rng.permutation(ALPHAS)[: int(rng.integers(2, 5))]]
        g = {"alpha": al}
        if spec["two"] and rng.random() < 0.5:
            g.update({"gain": [0.5, 2.0]} if isinstance(base[s], Cls) else {"shift": [0.0, 0.4]})
        grids[s] = g
    fn = {"small": prefer_small, "large": prefer_large, "mid": prefer_mid}
    scoring, pref = None, {}
    if spec["scoring"] in ("dict", "partial"):
        scoring = {}
        for i, s in enumerate(slots):
            if spec["scoring"] == "partial" and i == 0:
                continue
            kd = str(rng.choice(["small", "large", "mid"]))
            scoring[s], pref[s] = fn[kd], kd
    elif spec["scoring"] == "named":
        scoring = {s: ("accuracy" if isinstance(base[s], Cls) else MAE) for s in slots}
    pre = {}
    if spec["pre"]:
        for nm in names:
            for d in c.dn:
                pre[nm, d] = {"alpha": 0.11}
                m.set_ml_nuisance_params(nm, d, dict(pre[nm, d]))
    before = copy.deepcopy(m.params)
    kw = dict(tune_on_folds=spec["on_folds"], scoring_methods=None if scoring is None else dict(scoring), n_folds_tune=spec["kf"],
              search_mode="grid_search" if spec["mode"] == "grid" else "randomized_search", set_as_params=spec["set"], return_tune_res=spec["ret"])
    if spec["mode"] == "rand":
        kw["n_iter_randomized_search"] = 2
    grids0 = copy.deepcopy(grids)
    np.random.seed(spec["s"] % 2**31)
    res = m.tune(grids, **kw)
    same(grids, grids0, "the caller's grids")
    what = f"{c.kind} tune(on folds {spec['on_folds']}, {spec['mode']}, scoring {spec['scoring']})"
    reps = range(c.r) if spec["on_folds"] else [None]
    found = {}
    nsearch = 0
    if spec["ret"]:
        ensure(isinstance(res, list), what + ": result is no list")
        same(len(res), c.r if spec["on_folds"] else c.nt, what + ": length of the result")
        for r in reps:
            smpls = c.smpls[r] if spec["on_folds"] else [(np.arange(c.n), np.arange(c.n))]
            for j, d in enumerate(c.dn):
                one = res[r][j] if spec["on_folds"] else res[j]
                S = {}
                for nm in names:
                    if c.kind == "iivm" and (nm == "ml_r0" and not c.o["at"] or nm == "ml_r1" and not c.o["nv"]):
                        continue
                    S[nm] = search_of(c, one["tune_res"], nm)
                for nm in S:
                    same(len(S[nm]), len(smpls), f"{what} {nm}: number of searches")
                    s = slot_of[nm]
                    for i, (tr, _) in enumerate(smpls):
                        w = f"{what} {nm} treatment {d} rep {r} fold {i}"
                        g = S[nm][i]
                        nsearch += 1
                        cand = [dict(p) for p in g.cv_results_["params"]]
                        if spec["mode"] == "grid":
                            want = [{"alpha": a} for a in grids[s]["alpha"]]
                            for extra in set(grids[s]) - {"alpha"}:
                                want = [dict(p, **{extra: v}) for p in want for v in grids[s][extra]]
                            key = lambda p: sorted(p.items())  # noqa: E731
                            same(sorted(cand, key=key), sorted(want, key=key), w + ": candidates")
                        else:
                            ensure(len(cand) == 2 and all(p[q] in grids[s][q] for p in cand for q in grids[s]), w + f": candidates {cand}")
                            ensure(all(set(p) == set(grids[s]) for p in cand), w + f": candidates {cand}")
                        same(g.n_splits_, spec["kf"], w + ": folds of the search")
                        sc = np.array(g.cv_results_["mean_test_score"])
                        best = dict(g.best_params_)
                        ensure(np.isclose(sc[[i_ for i_, p in enumerate(cand) if p == best][0]], np.max(sc)), w + ": chosen candidate is not the best")
                        if s in pref:
                            tgt = {"small": min, "large": max, "mid": lambda v: min(v, key=lambda a: abs(np.log(a / 0.7)))}[pref[s]]
                            same(best["alpha"], tgt([p["alpha"] for p in cand]), w + f": candidate under the scoring '{pref[s]}'")
                        elif spec["scoring"] == "named":
                            ensure(np.all(sc <= 1e-12) if not isinstance(base[s], Cls) else np.all((sc >= 0) & (sc <= 1)), w + ": scores of another scoring")
                        XX, t, rows = own_sample(c, j, nm, tr, S, i, smpls)
                        want = clone(base[s]).set_params(**best).fit(XX[rows], t[rows]).b_
                        close(g.best_estimator_.b_, want, w + ": best learner refitted on the own sample", 1e-6, 1e-8)
                        same(dict(one["params"][nm][i]), best, w + ": reported parameters")
                        found[nm, d, r, i] = best
    else:
        ensure(res is m, what + ": return value is not the model")
    # parameters set
    if not spec["set"]:
        same(m.params, before, what + ": parameters changed although they must not be set")
    elif spec["ret"]:
        for nm in names:
            for d in c.dn:
                got = m.params[nm][d]
                skip = c.kind == "iivm" and (nm == "ml_r0" and not c.o["at"] or nm == "ml_r1" and not c.o["nv"])
                if skip:
                    continue
                for r in range(c.r):
                    for f in range(len(c.smpls[0])):
                        want = found[nm, d, r, f] if spec["on_folds"] else found[nm, d, None, 0]
                        same(dict(got[r][f]), want, f"{what}: parameters set for {nm} {d} rep {r} fold {f}")
    else:
        for nm in names:
            for d in c.dn:
                if slot_of[nm] in pref and spec["mode"] == "grid":
                    al = grids[slot_of[nm]]["alpha"]
                    tgt = {"small": min, "large": max, "mid": lambda v: min(v, key=lambda a: abs(np.log(a / 0.7)))}[pref[slot_of[nm]]](al)
                    if c.kind == "iivm" and (nm == "ml_r0" and not c.o["at"] or nm == "ml_r1" and not c.o["nv"]):
                        continue
                    for row in m.params[nm][d]:
                        for p in row:
                            same(p["alpha"], tgt, f"{what}: parameters set for {nm}")
    # and used
    m.fit()
    for r in range(c.r):
        for j, d in enumerate(c.dn):
            P = {nm: (None if m.params[nm][d][r] is None else [p or {} for p in m.params[nm][d][r]]) for nm in names}
            N = ref.nuisances(c, j, r, params=P)
            for nm in names:
                close(m.predictions[nm][:, r, j], ref.stored_pred(c, nm, N[nm].preds), f"{what}: prediction {nm} after tuning", 1e-6, 1e-8)
    for s, e in c.learners.items():
        ensure(not hasattr(e, "b_") and e.alpha == sp["la"][int(e.tag)], "the caller's learner was changed")
    cx.label(c.kind, "folds" if spec["on_folds"] else "global", spec["mode"], spec["scoring"], "cluster" if c.cl else "")
    cx.nontrivial(nsearch > 1 and len({str(v) for v in found.values()}) > 1)


_ = (Fail, Reg)
