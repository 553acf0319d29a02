"""C07: quantile models."""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Skip, close, ensure, sub

RULE = """A case is a generated data set with binary treatment (and instrument), a model (potential quantile, local potential quantile,
CVaR), treatment status, quantile level 0.2-0.8, normalization on/off, trimming threshold, default or user density estimate, 1-3
repetitions and 2-4 folds, fitted or arbitrary nuisance values. Non-trivial: the moment condition has a sign change in the support
of the outcome and the standard error is positive."""
ASSUMPTIONS = ["preliminary quantile estimate of CVaR: recomputed by the reference of C01 (mean over folds)",
               "outside the domain: cases in which the package warns that the moment condition has no root"]


def root_check(S, th, bounds, what):
    h = 1e-6 * (1 + bounds[1] - bounds[0])
    lo, at, hi = np.mean(S(th - h)), np.mean(S(th)), np.mean(S(th + h))
    ensure(min(lo, at, hi) <= 1e-9 and max(lo, at, hi) >= -1e-9, f"{what}: no sign change of the moment condition at the estimate "
           f"{th}: {lo}, {at}, {hi}")


def check_quantile(c, m, warned, cx):
    y = c.Y
    bounds = (y.min(), y.max())
    for r in range(c.r):
        P = common.stored(c, m, r, 0)
        S, w = ref.q_elements(c, P)
        th = m.all_coef[0, r]
        what = f"{c.kind} rep {r}"
        ensure(bounds[0] - 1e-9 <= th <= bounds[1] + 1e-9, f"{what}: estimate {th} outside the support of the outcome")
        if not warned:
            root_check(S, th, bounds, what)
            if c.kind == "pq" and np.all(w >= 0):  # monotone moment: the sign change is unique
                ys = np.sort(y)
                v = np.array([np.mean(S(t)) for t in ys])
                jump = ys[np.argmax(v > -1e-12)]
                if not np.any(np.abs(v) < 1e-9):
                    close(th, jump, what + " quantile estimate", 1e-5, 1e-6)
        psi = S(th)
        close(m.psi[:, r, 0], psi, what + " score value", 1e-7, 1e-9)
        dens = ref.kde(c, y - th, w)
        close(m.psi_deriv[:, r, 0], np.full(c.n, dens), what + " density derivative", 1e-6, 1e-10)
        close(m.all_se[0, r], np.sqrt(np.mean(psi**2) / dens**2 / c.n), what + " standard error", 1e-6)
    common.agg_check(c, m)


def fit(m, **kw):
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        m.fit(**kw)
    return any("Could not find a root" in str(w.message) for w in W)


@sub("fitted", gen.specs(kinds=("pq", "lpq")), quick=500)
def fitted(spec, cx):
    c = gen.Case(spec)
    m = c.make()
    warned = fit(m)
    cx.label(c.kind, "no root" if warned else "root", f"q={c.o['q']}", f"t={c.o['t']}")
    check_quantile(c, m, warned, cx)
    cx.nontrivial(not warned and bool(np.all(m.all_se > 0)))
    if warned and c.kind == "pq":  # a refusal to find a root must be justified: look for one the documented search had to find
        for r in range(c.r):
            N = ref.nuisances(c, 0, r)
            S, w = ref.q_elements(c, common.stored(c, m, r, 0))
            start = np.mean(N["ml_g"].prelim)
            differ, _ = ref.bracket(lambda t: np.mean(S(t)), start, (c.Y.min(), c.Y.max()))
            if not differ:
                return
        ensure(False, f"{c.kind}: no root found although the moment condition changes sign around the start value")


def ext_of(c, s):
    e = common.external(c, seed=s)
    rng = np.random.default_rng(s + 1)
    y, d = c.Y, c.D[:, 0]
    q = c.o["q"]
    if c.kind == "pq":
        e[c.dn[0]]["ml_g"] = np.clip(q + rng.normal(0, 0.2, (c.n, c.r)), 0.01, 0.99)
    else:
        for z in (0, 1):
            e[c.dn[0]][f"ml_m_d_z{z}"] = np.clip(0.2 + 0.5 * z + rng.normal(0, 0.1, (c.n, c.r)), 0.01, 0.99)
            e[c.dn[0]][f"ml_g_du_z{z}"] = np.clip(q * (0.2 + 0.5 * z if c.o["t"] else 0.8 - 0.5 * z) + rng.normal(0, 0.1, (c.n, c.r)), 0, 1)
    return e


@sub("arbitrary_nuisances", common.with_flag(gen.specs(kinds=("pq", "lpq")), s=gen.SEED), quick=800)
def arbitrary(spec, cx):
    c = gen.Case(spec["c"])
    ext = ext_of(c, spec["s"])
    m = c.make()
    warned = fit(m, external_predictions=ext)
    cx.label(c.kind, "no root" if warned else "root")
    for nm in c.nuis_names():
        want = ext[c.dn[0]][nm]
        if nm == "ml_m":
            want = ref.clip(want, c.o["trim"])
        close(m.predictions[nm][:, :, 0], want, f"{nm} used")
    check_quantile(c, m, warned, cx)
    cx.nontrivial(not warned and bool(np.all(m.all_se > 0)))


@sub("monotone_in_level", common.with_flag(gen.specs(kinds=("pq",), max_r=2), s=gen.SEED, q2=st.floats(0.15, 0.85)), quick=400)
def monotone(spec, cx):
    """At fixed nuisances the potential-quantile estimate increases weakly with the level."""
    c = gen.Case(spec["c"])
    ext = ext_of(c, spec["s"])
    q1, q2 = sorted([c.o["q"], round(spec["q2"], 3)])
    m1, m2 = c.make(quantile=q1), c.make(quantile=q2)
    w1, w2 = fit(m1, external_predictions=ext), fit(m2, external_predictions=ext)
    if w1 or w2:
        raise Skip("no root")
    ensure(np.all(m1.all_coef <= m2.all_coef + 1e-7 * (1 + np.ptp(c.Y))), f"estimate falls from {m1.all_coef} to {m2.all_coef} with the level")
    cx.nontrivial(q1 < q2)


@sub("cvar", gen.specs(kinds=("cvar",)), quick=500)
def cvar(spec, cx):
    c = gen.Case(spec)
    m = c.make().fit()
    for r in range(c.r):
        pq = np.mean(ref.nuisances(c, 0, r)["ml_g"].prelim)
        P = common.stored(c, m, r, 0)
        a, b = ref.cvar_score(c, P, pq)
        th = np.mean(b)
        w = f"cvar rep {r}"
        close(m.psi_elements["psi_b"][:, r, 0], b, w + " psi_b", 1e-7, 1e-8)
        close(m.all_coef[0, r], th, w + " coefficient", 1e-7, 1e-8)
        close(m.psi[:, r, 0], b - th, w + " score value", 1e-7, 1e-8)
        close(m.psi_deriv[:, r, 0], a, w + " score derivative")
        close(m.all_se[0, r], np.sqrt(np.mean((b - th) ** 2) / c.n), w + " standard error", 1e-7)
    common.agg_check(c, m)
    cx.label(f"q={c.o['q']}", f"t={c.o['t']}", "norm" if c.o["norm"] else "raw")
    cx.nontrivial(bool(np.all(m.all_se > 0)))
