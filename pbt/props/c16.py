"""C16: external predictions."""
import copy

import numpy as np
from hypothesis import strategies as st

import doubleml as dml

from .. import common, gen, ref
from ..core import Fail, Skip, close, ensure, raises, sub
from ..learners import Broken, BrokenCls, Cls, Reg
from .c07 import check_quantile, ext_of, fit

RULE = """A case is a generated data set and model that accepts external predictions, a splitting with 1-3 repetitions, and for every
treatment a subset of its nuisance functions supplied externally: the model's own stored predictions, or arbitrary values including
propensities at and beyond the bounds. Learners all of whose nuisance functions are supplied are replaced by learners that refuse to
be fitted. Non-trivial: at least one nuisance function supplied and a positive standard error."""
ASSUMPTIONS = ["arrays must be float ndarrays of shape (n_obs, n_rep)", "local quantile model: all or nothing (documented by a refusal)"]

LIN = common.EXTERNAL
OV = {"nt": st.sampled_from([1, 2, 3]), "var": st.sampled_from(["x", "x_iv", "x_call", "xm", "xm3"])}


def linspecs(kinds=LIN, cluster=(0,)):
    def lim(s):
        if s["kind"] == "pliv":
            s["o"]["nt"] = min(s["o"]["nt"], 2)
        return s
    return gen.specs(kinds=kinds, cluster=cluster, max_k=3, max_r=3, over=OV).map(lim)


def masked(c, full, bits):
    """treatment -> supplied names (dict of arrays); bit i*8+j"""
    out = {}
    for j, d in enumerate(c.dn):
        e = {nm: full[d][nm] for i, nm in enumerate(c.nuis_names()) if bits >> (8 * j + i) & 1}
        if e:
            out[d] = e
    return out


def breaking(c, ext):
    """Learners with the completely replaced ones made unusable."""
    L = dict(c.learners)
    for s in L:
        nm = [n for n in c.nuis_names() if c.slot(n) == s]
        if all(n in ext.get(d, {}) for d in c.dn for n in nm) and nm:
            L[s] = BrokenCls() if isinstance(L[s], Cls) else Broken()
    return L


def unneeded(c, d, nm, ext):
    """PLR: ml_l only enters through the preliminary estimate for ml_g; with ml_g supplied the model need not fit it."""
    e = ext.get(d, {})
    return c.kind == "plr" and c.o["score"] == "IV-type" and nm == "ml_l" and "ml_g" in e and "ml_l" not in e


def run(c, ext, **kw):
    L = breaking(c, ext)
    m = c.make(learners=L)
    keep = copy.deepcopy(ext)
    try:
        m.fit(external_predictions=ext, **kw)
    except RuntimeError as e:
        raise Fail(f"{c.kind}: {e}; supplied {({d: sorted(v) for d, v in ext.items()})}")
    ensure(ext.keys() == keep.keys(), "treatments of the caller's dictionary changed")
    for d in ext:
        ensure(ext[d].keys() == keep[d].keys(), "entries of the caller's dictionary changed")
        for nm in ext[d]:
            ensure(np.array_equal(ext[d][nm], keep[d][nm]), f"the caller's array {nm} was modified")
    return m, sum(isinstance(v, (Broken, BrokenCls)) for v in L.values())


@sub("own_predictions", common.with_flag(linspecs(cluster=(0, 0, 0, 1)), bits=st.integers(1, 2**24 - 1), all=st.booleans()), quick=700)
def own(spec, cx):
    c = common.need_cells(gen.Case(spec["c"]))
    base = c.make().fit()
    full = {d: {nm: np.array(base.predictions[nm][:, :, j]) for nm in c.nuis_names()} for j, d in enumerate(c.dn)}
    ext = full if spec["all"] else masked(c, full, spec["bits"])
    m, nb = run(c, ext)
    close(m.coef, base.coef, f"{c.kind} coefficient with {({d: sorted(v) for d, v in ext.items()})}", 1e-8, 1e-10)
    close(m.se, base.se, f"{c.kind} standard error", 1e-8, 1e-10)
    close(m.all_coef, base.all_coef, f"{c.kind} coefficients of the repetitions", 1e-8, 1e-10)
    close(m.psi, base.psi, f"{c.kind} score values", 1e-7, 1e-9)
    for nm in c.nuis_names():
        for j, d in enumerate(c.dn):
            if not (unneeded(c, d, nm, ext) and np.all(np.isnan(m.predictions[nm][:, :, j]))):
                close(m.predictions[nm][:, :, j], base.predictions[nm][:, :, j], f"{c.kind} stored {nm}", 1e-9, 1e-11)
    cx.label(c.kind + str(c.o.get("score", "")) + str(c.o.get("var", "")), f"unusable {nb}", f"treatments {len(ext)}/{c.nt}")
    cx.nontrivial(bool(ext) and bool(np.all(base.se > 0)))


@sub("subsets", common.with_flag(linspecs(), bits=st.integers(1, 2**24 - 1), s=gen.SEED), quick=900)
def subsets(spec, cx):
    """Supplied values are used verbatim, everything else is cross-fitted given them."""
    c = gen.Case(spec["c"])
    ext = masked(c, common.external(c, seed=spec["s"]), spec["bits"])
    m, nb = run(c, ext)
    for r in range(c.r):
        for j, d in enumerate(c.dn):
            e = {nm: v[:, r] for nm, v in ext.get(d, {}).items()}
            N = ref.nuisances(c, j, r, ext=e)
            for nm in c.nuis_names():
                if unneeded(c, d, nm, ext) and np.all(np.isnan(m.predictions[nm][:, r, j])):
                    continue
                close(m.predictions[nm][:, r, j], ref.stored_pred(c, nm, N[nm].preds),
                      f"{c.kind} {nm} of {d} rep {r} ({'supplied' if nm in e else 'fitted'}, supplied {sorted(e)})", 1e-7, 1e-9)
    common.check_linear(c, m, cx)
    common.agg_check(c, m)
    cx.label(c.kind + str(c.o.get("score", "")) + str(c.o.get("var", "")), f"unusable {nb}", f"treatments {len(ext)}/{c.nt}")
    cx.nontrivial(bool(ext) and bool(np.all(m.all_se > 0)))


@sub("quantile", common.with_flag(gen.specs(kinds=("pq", "lpq"), max_k=3, max_r=3), s=gen.SEED, own=st.booleans(), bits=st.integers(1, 31)), quick=350)
def quantile(spec, cx):
    c = gen.Case(spec["c"])
    names = c.nuis_names()
    if spec["own"]:
        base = c.make()
        w = fit(base)
        ext = {c.dn[0]: {nm: np.array(base.predictions[nm][:, :, 0]) for nm in names}}
        m = c.make(learners=breaking(c, ext))
        w2 = fit(m, external_predictions=ext)
        if w or w2:
            raise Skip("no root")
        S = np.max(np.abs(c.Y)) + 1
        if c.kind == "lpq":  # the moment need not be monotone; the search starts from the same preliminary value only when refitted
            for r in range(c.r):
                f, _ = ref.q_elements(c, common.stored(c, m, r, 0))
                th = m.all_coef[0, r]
                h = 1e-6 * S
                v = [np.mean(f(t)) for t in (th - h, th, th + h)]
                ensure(min(v) <= 1e-9 and max(v) >= -1e-9, f"lpq: estimate {th} is no root of the moment at the supplied predictions")
        else:
            for r in range(c.r):
                f, wts = ref.q_elements(c, common.stored(c, m, r, 0))
                if np.any(wts < 0):
                    raise Skip("weights")
                if abs(np.mean(f(m.all_coef[0, r] + 1e-5)) - np.mean(f(m.all_coef[0, r] - 1e-5))) < 1e-12:
                    raise Skip("flat moment at the estimate")
            close(m.coef, base.coef, "pq coefficient from own predictions", 1e-5, 1e-5 * S)
            close(m.se, base.se, "pq standard error from own predictions", 1e-3, 1e-5)
        check_quantile(c, m, False, cx)
        cx.label(c.kind + " own")
        cx.nontrivial(bool(np.all(m.all_se > 0)))
        return
    full = ext_of(c, spec["s"])
    sub_ = {nm: full[c.dn[0]][nm] for i, nm in enumerate(names) if spec["bits"] >> i & 1}
    if c.kind == "lpq":
        if 0 < len(sub_) < len(names):
            m = c.make()
            raises((ValueError, NotImplementedError), lambda: m.fit(external_predictions={c.dn[0]: sub_}), "partial external predictions")
            cx.label("lpq partial refused")
            cx.nontrivial()
            return
        sub_ = full[c.dn[0]]
    ext = {c.dn[0]: sub_} if sub_ else {}
    m = c.make(learners=breaking(c, ext))
    keep = copy.deepcopy(ext)
    warned = fit(m, external_predictions=ext)
    for r in range(c.r):
        e = {nm: v[:, r] for nm, v in sub_.items()}
        N = ref.nuisances(c, 0, r, ext=e) if c.kind == "pq" else None
        for nm in names:
            want = e[nm] if nm in e else N[nm].preds
            close(m.predictions[nm][:, r, 0], ref.stored_pred(c, nm, want), f"{c.kind} {nm} rep {r} (supplied {sorted(e)})", 1e-7, 1e-9)
    for nm in sub_:
        ensure(np.array_equal(sub_[nm], keep[c.dn[0]][nm]), f"the caller's array {nm} was modified")
    check_quantile(c, m, warned, cx)
    cx.label(c.kind, f"supplied {sorted(sub_)}")
    cx.nontrivial(bool(sub_) and not warned and bool(np.all(m.all_se > 0)))


@sub("apos", common.with_flag(gen.specs(kinds=("apo",), max_k=3, max_r=3), s=gen.SEED, lev=st.integers(0, 511), own=st.booleans(),
                              order=st.permutations([0, 1, 2])), quick=150)
def apos(spec, cx):
    c = gen.Case(spec["c"])
    levels = [float(v) for v in spec["order"]]
    names = c.nuis_names()

    def make():
        m = dml.DoubleMLAPOS(c.data(), c.learners["ml_g"], c.learners["ml_m"], treatment_levels=levels, weights=c.weights_arg, n_folds=c.k,
                             n_rep=c.r, draw_sample_splitting=False, normalize_ipw=c.o["norm"], trimming_threshold=c.o["trim"])
        m.set_sample_splitting(c.smpls)
        return m

    parts = [gen.Case(dict(spec["c"], o=dict(spec["c"]["o"], lev=int(l)))) for l in levels]
    if spec["own"]:
        base = make().fit()
        src = {l: {nm: np.array(base.modellist[i].predictions[nm][:, :, 0]) for nm in names} for i, l in enumerate(levels)}
    else:
        src = {l: common.external(parts[i], seed=spec["s"] + i)[c.dn[0]] for i, l in enumerate(levels)}
    ext = {}
    for i, l in enumerate(levels):
        e = {nm: v for q, (nm, v) in enumerate(src[l].items()) if spec["lev"] >> (3 * i + q) & 1}
        if e or (spec["lev"] >> 8) & 1:
            ext[l] = e
    keep = copy.deepcopy(ext)
    m = make()
    m.fit(external_predictions=ext)
    for l in ext:
        for nm in ext[l]:
            ensure(np.array_equal(ext[l][nm], keep[l][nm]), "the caller's array was modified")
    for i, l in enumerate(levels):
        ci = parts[i]
        for r in range(c.r):
            e = {nm: v[:, r] for nm, v in ext.get(l, {}).items()}
            N = ref.nuisances(ci, 0, r, ext=e)
            for nm in names:
                close(m.modellist[i].predictions[nm][:, r, 0], ref.stored_pred(ci, nm, N[nm].preds),
                      f"apos level {l} {nm} rep {r}", 1e-7, 1e-9)
        common.check_linear(ci, m.modellist[i], cx)
        close(m.coef[i], m.modellist[i].coef[0], f"apos coefficient of level {l}", 1e-9)
        if spec["own"]:
            close(m.coef[i], base.coef[i], f"apos level {l} from own predictions", 1e-8, 1e-10)
            close(m.se[i], base.se[i], f"apos level {l} standard error from own predictions", 1e-8, 1e-10)
    cx.label("own" if spec["own"] else "arbitrary", f"levels {len(ext)}")
    cx.nontrivial(any(ext.values()) and bool(np.all(m.se > 0)))


BAD = ["list", "treatment", "inner_list", "learner", "series", "list_values", "short", "long", "one_dim", "rep", "transposed"]


@sub("malformed", common.with_flag(gen.specs(kinds=LIN + ("pq", "lpq"), max_k=3, max_r=3, over={"var": OV["var"]}), s=gen.SEED,
                                   bad=st.sampled_from(BAD), which=st.integers(0, 7)), quick=250)
def malformed(spec, cx):
    c = gen.Case(spec["c"])
    ext = common.external(c, seed=spec["s"])
    if c.kind in ("pq", "lpq"):
        ext = ext_of(c, spec["s"])
    d = c.dn[spec["which"] % c.nt]
    nm = c.nuis_names()[spec["which"] % len(c.nuis_names())]
    v = ext[d][nm]
    b = spec["bad"]
    import pandas as pd
    if b == "list":
        ext = [ext]
    elif b == "treatment":
        ext["nope"] = ext.pop(d)
    elif b == "inner_list":
        ext[d] = [v]
    elif b == "learner":
        ext[d]["ml_nope"] = v
    elif b == "series":
        ext[d][nm] = pd.DataFrame(v)
    elif b == "list_values":
        ext[d][nm] = v.tolist()
    elif b == "short":
        ext[d][nm] = v[:-1]
    elif b == "long":
        ext[d][nm] = np.vstack((v, v[:1]))
    elif b == "one_dim":
        ext[d][nm] = v[:, 0]
    elif b == "rep":
        ext[d][nm] = np.column_stack((v, v[:, 0]))
    elif b == "transposed":
        ext[d][nm] = v.T
    m = c.make()
    raises((TypeError, ValueError), lambda: m.fit(external_predictions=ext), f"{c.kind} external predictions: {b}")
    fit(m)
    m2 = c.make()
    fit(m2)
    ensure(np.array_equal(m.coef, m2.coef) and np.array_equal(m.se, m2.se), f"fit after a refused request differs ({b})")
    cx.label(c.kind, b)
    cx.nontrivial()


@sub("unsupported", common.with_flag(gen.specs(kinds=("ssm", "cvar", "pliv"), max_k=3, max_r=2, over={"var": st.sampled_from(["z", "zm", "xz", "xzm"])}),
                                     qte=st.sampled_from([None, "PQ", "CVaR"])), quick=60)
def unsupported(spec, cx):
    """Models without support refuse instead of ignoring the values."""
    c = gen.Case(spec["c"])
    if spec["qte"] and c.kind == "cvar":
        m = dml.DoubleMLQTE(c.data(), Reg(0.3) if spec["qte"] == "CVaR" else Cls(0.3), Cls(0.3), quantiles=[0.4], score=spec["qte"], n_folds=c.k,
                            n_rep=c.r, draw_sample_splitting=False)
        m.set_sample_splitting(c.smpls)
        what = "QTE"
    else:
        m, what = c.make(), c.kind
    v = np.full((c.n, c.r), 0.5)
    raises((NotImplementedError, ValueError), lambda: m.fit(external_predictions={c.dn[0]: {"ml_m": v}}), what)
    cx.label(what)
    cx.nontrivial()
