"""C24: symmetries of the estimation problem."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import common, gen
from ..core import Fail, Skip, close, ensure, same, sub
from ..learners import AffCls, AffReg, Cls
from . import c07

RULE = """A case is a generated data set, model (all classes, clusters for part of them) and splitting together with a transformation: permuted rows,
renamed / reordered columns, other row labels, unused columns, other number types, shifted covariates, affine outcome, rescaled treatment or
instrument, relabelled treatment or levels. Both problems are fitted with equivariant learners and all estimates, standard errors and
(where equivariant) scores are compared after undoing the transformation. Non-trivial: finite positive standard errors and a
transformation that is not the identity."""
ASSUMPTIONS = ["learners are equivariant (ridge regression with a free intercept, mirrored logit)",
               "models that split their training samples at random by row position are excluded from row permutations and relabelling",
               "quantile estimates are compared up to the tolerance of their root search"]

SPLITTERS = ("pq", "lpq", "cvar")
QUANT = ("pq", "lpq")


def inner_split(c):
    return c.kind in SPLITTERS or c.kind == "ssm" and c.o["score"] == "nonignorable"


def aff(c):
    return {k: (AffCls if isinstance(v, Cls) else AffReg)(alpha=v.alpha) for k, v in c.learners.items()}


def fit(c, data, learners=None):
    m = c.make(data=data, learners=aff(c) if learners is None else learners)
    if c07.fit(m):
        raise Skip("no root")
    return m


def compare(c, a, b, what, scale=1.0, shift=0.0, perm=None, sens=None):
    """estimates of b = scale * estimates of a + shift."""
    if not (np.all(np.isfinite(a.all_se)) and np.all(np.asarray(a.all_se) > 0)):
        raise Skip("degenerate estimate")
    ya = max(np.abs(c.Y).max(), 1.0)
    if c.kind in QUANT:
        if any(not np.allclose(b.predictions[nm], a.predictions[nm] if perm is None else a.predictions[nm][perm], atol=1e-6) for nm in c.nuis_names()):
            if scale == 1 and shift == 0 and what.split("other ")[-1] in ("index", "unused", "columns"):
                raise Fail(what + ": predictions differ")
            raise Skip("preliminary quantile found at another tolerance")
        return compare_quantile(c, a, b, what, scale, shift)
    if c.kind == "cvar" and scale == 1 and shift == 0 and what.split("other ")[-1] not in ("index", "unused", "columns"):
        if not np.allclose(b.predictions["ml_g"], a.predictions["ml_g"] if perm is None else a.predictions["ml_g"][perm], atol=1e-5):
            raise Skip("preliminary quantile found at another tolerance")
    rt, at = 1e-6, 1e-7 * max(abs(scale), 1) * ya
    sa, sb = np.asarray(a.all_se), np.asarray(b.all_se)
    if np.any(sa > 1e3 * ya):
        raise Skip("badly identified")
    close(b.all_coef, scale * np.asarray(a.all_coef) + shift, what + ": estimates", rt, at)
    close(sb, abs(scale) * sa, what + ": standard errors", 1e-6, at * 1e-2)
    close(b.coef, scale * np.asarray(a.coef) + shift, what + ": reported estimate", rt, at)
    close(b.se, abs(scale) * np.asarray(a.se), what + ": reported standard error", 1e-6, at * 1e-2)
    if c.kind not in QUANT and sens is not None and a.sensitivity_elements is not None and b.sensitivity_elements is not None:
        ea, eb = a.framework.sensitivity_elements, b.framework.sensitivity_elements
        if ea is not None and eb is not None and np.all(np.asarray(ea["max_bias"]) > 1e-6):
            close(eb["max_bias"], sens * np.asarray(ea["max_bias"]), what + ": maximal bias", 1e-5, 1e-9)


def compare_quantile(c, a, b, what, scale, shift):
    """The root of a step function is found at a jump or anywhere on a flat part: same gap between neighbouring outcomes."""
    ys = np.sort(np.unique(c.Y))
    for r in range(c.r):
        u, v = np.asarray(a.all_coef)[0, r], (np.asarray(b.all_coef)[0, r] - shift) / scale
        if abs(u - v) <= 1e-5 * np.ptp(c.Y):
            sa, sb = np.asarray(a.all_se)[0, r], np.asarray(b.all_se)[0, r] / abs(scale)
            close(sb, sa, what + ": standard errors", 0.1, 0)
        elif c.kind == "pq":
            between = np.sum((ys > min(u, v) + 1e-6) & (ys < max(u, v) - 1e-6))
            ensure(between <= 1, f"{what}: estimates {u} and {v}, {between} outcomes between them")


ANY = st.one_of(gen.specs(max_k=3, max_r=2), gen.specs(kinds=("plr", "pliv"), cluster=(1, 2), max_k=3, max_r=2))
HOW = ["rows", "rename", "columns", "index", "unused", "xorder", "types", "all"]


def permuted(c, perm):
    """Case with row i of the new table = row perm[i] of the old one."""
    q = copy.copy(c)
    inv = np.argsort(perm)
    q.smpls = [[(np.sort(inv[tr]), np.sort(inv[te])) for tr, te in sm] for sm in c.smpls]
    w = c.weights_arg
    if isinstance(w, dict):
        q.weights_arg = {k: v[perm] for k, v in w.items()}
    elif w is not None:
        q.weights_arg = w[perm]
    return q


def int_types(rng, c, df):
    kinds = {}
    for k in df.columns:
        v = df[k].to_numpy(dtype=float)
        if np.all(v == np.round(v)):
            small = np.isin(v, (0.0, 1.0)).all()
            kinds[k] = str(rng.choice(["int64", "int32", "float64"] + (["int8"] if small else [])))
    return df.astype(kinds)


@sub("form", st.fixed_dictionaries({"c": ANY, "s": gen.SEED, "how": st.sampled_from(HOW), "aff": st.booleans()}), quick=900)
def form(spec, cx):
    """The form in which the same data are given does not matter."""
    c = common.need_cells(gen.Case(spec["c"]))
    rng = np.random.default_rng(spec["s"])
    how = spec["how"]
    if how == "types" or how == "all":
        c.X = np.round(c.X * 2)
        c.df[c.xn] = c.X
        if not c.o.get("ybin"):
            c.Y = np.round(c.Y * 4) if c.kind != "ssm" else np.round(c.Y * 4) * c.S
            c.df["y"] = c.Y
    L = aff(c) if spec["aff"] else dict(c.learners)
    a = fit(c, c.data(), L)
    q, df = copy.copy(c), c.df.copy()
    q.xn, q.dn, q.zn, q.cn = list(c.xn), list(c.dn), list(c.zn), list(c.cn)
    kw = {}
    perm = None
    if how in ("rows", "all"):
        if inner_split(c):
            if how == "rows":
                raise Skip("random inner split")
        else:
            perm = rng.permutation(c.n)
            q = permuted(q, perm)
            df = df.iloc[perm].reset_index(drop=True)
    if how in ("types", "all"):
        df = int_types(rng, c, df)
    if how in ("unused", "all"):
        for i in range(int(rng.integers(1, 4))):
            df.insert(int(rng.integers(0, df.shape[1] + 1)), f"unused{i}", rng.normal(size=c.n) if i else [f"txt{j % 5}" for j in range(c.n)])
    if how in ("index", "all"):
        u = rng.integers(4)
        df.index = [rng.permutation(c.n) + 7, pd.date_range("2020-01-01", periods=c.n)[rng.permutation(c.n)], [f"r{i % 4}" for i in range(c.n)],
                    pd.MultiIndex.from_arrays([np.arange(c.n) % 3, np.arange(c.n)])][int(u)]
    if how in ("rename", "all"):
        new = {k: f"v{i}_{'abc'[i % 3]}" for i, k in enumerate(rng.permutation(df.columns))}
        df = df.rename(columns=new)
        q.xn, q.dn, q.zn, q.cn = ([new[k] for k in v] for v in (c.xn, c.dn, c.zn, c.cn))
        kw["y_col"] = new["y"]
        if c.T is not None:
            kw["t_col"] = new["t"]
        if c.S is not None:
            kw["s_col"] = new["s"]
    if how in ("xorder", "all"):
        q.xn = [q.xn[i] for i in rng.permutation(len(q.xn))]
    if how in ("columns", "all"):
        df = df[[df.columns[i] for i in rng.permutation(df.shape[1])]]
    b = fit(q, q.data(df, **kw), L)
    compare(c, a, b, f"{c.kind}, other {how}", sens=1.0, perm=perm)
    if c.kind not in QUANT:
        p = np.arange(c.n) if perm is None else perm
        close(b.psi, a.psi[p], f"{c.kind}, other {how}: scores", 1e-5, 1e-6 * max(1, np.abs(a.psi).max()))
        if how != "rename" and how != "all":
            for nm in c.nuis_names():
                close(b.predictions[nm], a.predictions[nm][p], f"{c.kind}, other {how}: predictions {nm}", 1e-6, 1e-7)
                close(b.nuisance_loss[nm], a.nuisance_loss[nm], f"{c.kind}, other {how}: loss {nm}", 1e-6, 1e-7)
    cx.label(how, c.kind, f"cl={c.cl}")
    cx.nontrivial()


CONT = st.one_of(gen.specs(max_k=3, max_r=2, over={"ybin": st.just(0), "kde": st.just(0)}),
                 gen.specs(kinds=("plr", "pliv"), cluster=(1, 2), max_k=3, max_r=2))


@sub("outcome", st.fixed_dictionaries({"c": CONT, "b": st.sampled_from([2.0, -1.0, -3.5, 0.1, 100.0, 1.0]), "a": st.sampled_from([0.0, 1.0, -20.0, 7.5])}), quick=700)
def outcome(spec, cx):
    """y -> a + b y"""
    c = common.need_cells(gen.Case(spec["c"]))
    a, b = spec["a"], spec["b"]
    if c.kind in SPLITTERS:
        b = abs(b)
    if c.kind == "plr" and c.o["score"] == "callable_g" or c.kind == "pliv" and c.o["var"] in ("z", "zm"):
        a = 0.0     # these scores use the outcome itself
    m = fit(c, c.data())
    q = copy.copy(c)
    q.Y = a + b * c.Y
    df = c.df.copy()
    df["y"] = q.Y
    m2 = fit(q, q.data(df))
    shift = 0.0
    if c.kind in SPLITTERS:
        shift = a
    if c.kind == "apo":
        w = c.weights_arg
        w = np.ones(c.n) if w is None else (w["weights"] if isinstance(w, dict) else w)
        shift = a * np.mean(w)
    if c.kind in SPLITTERS:
        # root search and preliminary quantiles are numerical
        if c.kind == "cvar":
            ga, gb = a + b * m.predictions["ml_g"], m2.predictions["ml_g"]
            if not np.allclose(gb, ga, rtol=1e-4, atol=1e-4 * (abs(a) + abs(b) * np.abs(c.Y).max())):
                raise Skip("preliminary quantile found at another tolerance")
    if c.kind == "cvar":
        close(m2.all_coef, b * np.asarray(m.all_coef) + shift, "cvar: estimates after an affine change of the outcome", 1e-3, 1e-3 * b * np.std(c.Y))
    else:
        compare(c, m, m2, f"{c.kind}: outcome {a} + {b} y", b, shift, sens=abs(b) if c.kind != "apo" else None)
    cx.label(c.kind, f"cl={c.cl}")
    cx.nontrivial((a, b) != (0.0, 1.0))


@sub("covariates", st.fixed_dictionaries({"c": ANY, "s": gen.SEED}), quick=250)
def covariates(spec, cx):
    """Shifted covariates with learners that do not care about the origin."""
    c = common.need_cells(gen.Case(spec["c"]))
    rng = np.random.default_rng(spec["s"])
    m = fit(c, c.data())
    sh = np.round(rng.normal(size=len(c.xn)) * 5, 1)
    df = c.df.copy()
    df[c.xn] = df[c.xn] + sh
    m2 = fit(c, c.data(df))
    compare(c, m, m2, f"{c.kind}: shifted covariates", sens=1.0)
    cx.label(c.kind)
    cx.nontrivial(np.any(sh != 0))


TREAT = st.one_of(gen.specs(kinds=("plr",), cluster=(0, 0, 0, 1, 2), max_k=3, max_r=2, over={"mcls": st.just(False), "nt": st.just(1)}),
                  gen.specs(kinds=("pliv",), cluster=(0, 0, 0, 1, 2), max_k=3, max_r=2, over={"nt": st.just(1)}))


@sub("treatment", st.fixed_dictionaries({"c": TREAT, "b": st.sampled_from([2.0, -1.0, -0.3, 10.0]), "e": st.sampled_from([0.0, 3.0, -1.5]), "z": st.booleans()}), quick=400)
def treatment(spec, cx):
    """d -> e + b d (and z -> rescaled)"""
    c = gen.Case(spec["c"])
    b, e = spec["b"], spec["e"]
    if c.kind == "plr" and c.o["score"] in ("IV-type", "callable_g"):
        e = 0.0
    if c.kind == "pliv" and c.o["var"] in ("z", "zm", "x_iv"):
        e = 0.0
    m = fit(c, c.data())
    q = copy.copy(c)
    df = c.df.copy()
    df[c.dn[0]] = e + b * df[c.dn[0]]
    zs = 1.0
    if c.kind == "pliv" and spec["z"] and c.o["var"] in ("x", "x_call", "xm", "xm3", "x_iv"):
        zs = -2.5
        for i, z in enumerate(c.zn):
            df[z] = zs * (i + 1) * df[z] + (3.0 if c.o["var"] != "x_iv" else 0.0)
    m2 = fit(q, q.data(df))
    compare(c, m, m2, f"{c.kind} ({c.o.get('score', c.o.get('var'))}): treatment {e} + {b} d", 1 / b, sens=1 / abs(b))
    cx.label(c.kind, str(c.o.get("score", c.o.get("var"))), f"cl={c.cl}")
    cx.nontrivial()


LABEL = st.one_of(gen.specs(kinds=("irm",), max_k=3, max_r=2, over={"score": st.sampled_from(["ATE", "ATE", "callable"]), "w": st.sampled_from(["none", "arr", "dict"])}),
                  gen.specs(kinds=("apo",), max_k=3, max_r=2),
                  gen.specs(kinds=("iivm",), max_k=3, max_r=2),
                  gen.specs(kinds=("ssm",), max_k=3, max_r=2, over={"score": st.just("missing-at-random"), "norm": st.just(False)}),
                  gen.specs(kinds=("plr",), max_k=3, max_r=2, over={"mcls": st.just(True), "nt": st.just(1), "score": st.just("partialling out")}))


@sub("labels", st.fixed_dictionaries({"c": LABEL, "s": gen.SEED}), quick=450)
def labels(spec, cx):
    """Relabelled treatments."""
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    m = fit(c, c.data())
    df = c.df.copy()
    q = copy.copy(c)
    q.o = dict(c.o)
    k = c.kind
    if k == "apo":
        lab = [int(x) for x in rng.permutation([0, 1, 2, 5, 10, 3])[:3]]
        df["d"] = np.array(lab, dtype=float)[c.D[:, 0].astype(int)]
        q.o["lev"] = lab[c.o["lev"]]
        sign, w = 1.0, f"levels {lab}"
    elif k == "iivm":
        if rng.random() < 0.5 or c.o["norm"] or not (c.o["at"] and c.o["nv"]):
            df["d"], df["z1" if "z1" in df else "z"] = 1 - df["d"], 1 - df["z1" if "z1" in df else "z"]
            q.o["at"], q.o["nv"] = c.o["nv"], c.o["at"]
            sign, w = -1.0, "treatment and instrument relabelled"
        else:
            df["z1" if "z1" in df else "z"] = 1 - df["z1" if "z1" in df else "z"]
            sign, w = 1.0, "instrument relabelled"
    else:
        df["d"] = 1 - df["d"]
        sign, w = -1.0, "treatment relabelled"
    m2 = fit(q, q.data(df))
    compare(c, m, m2, f"{k}: {w}", sign, sens=1.0 if k in ("irm", "plr") else None)
    cx.label(k)
    cx.nontrivial()
