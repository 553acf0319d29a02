"""C31: the sensitivity bounds contain the effect that the omitted confounder hides."""
import numpy as np
import doubleml as dml
from hypothesis import strategies as st

from .. import gen
from ..core import Skip, close, ensure, sub
from .c30 import CellCls, CellReg, Pop, build, quiet, scale, spec_of

RULE = """A case is a finite population with an unobserved (or left-out) discrete confounder inside every covariate cell; cell-average
learners estimate all nuisance functions exactly. The strength of the confounder (cf_y, cf_d, rho) is computed from the definition, by
projecting the long regression and the long Riesz representer on the observed cells. Non-trivial: the confounder changes the effect and
both strengths lie strictly between 0 and 1."""
ASSUMPTIONS = ["cf_y and cf_d below 1", "true propensities inside the trimming bounds"]

KINDS = ("plr", "irm", "apo", "did", "didcs")


class Long(Pop):
    """Population whose cells are (observed cell, level of the confounder)."""

    def __init__(self, s):
        self.U = s["u"]
        super().__init__({**s, "cells": s["cells"] * s["u"], "w": 0})
        self.Ks = s["cells"]
        self.long_cell, self.K_long = self.cell, self.K

    def view(self, long):
        """Switch the cells (and covariates) between the long and the short model."""
        self.long = long
        self.K = self.K_long if long else self.Ks
        self.cell = self.long_cell if long else self.long_cell // self.U

    def frame(self):
        self.view(True)
        self.val = np.column_stack((np.arange(self.K) // self.U * 5.0, np.arange(self.K) % self.U * 1.0))
        return super().frame()


    def data(self, df):
        return dml.DoubleMLData(df, "y", "d", x_cols=["x1", "x2"] if self.long else ["x1"], t_col="t" if "t" in df else None)


def pieces(p, spec, nuis, theta):
    """Regression and Riesz representer of the current view."""
    d = p.d
    if p.kind == "plr":
        v = d - nuis["ml_m"]
        return theta * d + nuis["ml_l"] - theta * nuis["ml_m"], v / np.mean(v**2)
    if p.kind == "didcs":
        g = np.select([(d == a) & (p.t == b) for a in (0, 1) for b in (0, 1)], [nuis[f"ml_g_d{a}_t{b}"] for a in (0, 1) for b in (0, 1)])
        lam, q = p.t.mean(), d.mean()
        dt = p.t / lam - (1 - p.t) / (1 - lam)
        m = nuis.get("ml_m", np.full(p.nb, q))
        return g, dt * (d / q - (1 - d) * m / (q * (1 - m)))
    if p.kind == "apo":
        on = (d == float(spec["level"])).astype(float)
        return np.where(on == 1, nuis["ml_g_d_lvl1"], nuis["ml_g_d_lvl0"]), on / nuis["ml_m"]
    g = np.where(d == 1, nuis["ml_g1"], nuis["ml_g0"])
    q = d.mean()
    m = nuis.get("ml_m", np.full(p.nb, q))
    if p.kind == "did" or spec["score"] == 2:
        return g, d / q - (1 - d) * m / (q * (1 - m))
    return g, d / m - (1 - d) / (1 - m)


SPEC = st.fixed_dictionaries({"p": spec_of(KINDS), "u": st.integers(2, 3), "null": st.integers(0, 2)})


def setup(spec):
    s = {**spec["p"], "u": spec["u"], "w": 0, "trim": 0.01}
    s["cells"] = 1 + s["cells"] % 3
    p = Long(s)
    df = p.frame()
    if s["kind"] == "plr":  # the long model need not be partially linear in the covariates
        p.y = p.y + (p.long_cell % p.U) * 2.0 * (1 if spec["null"] else -1)
        df["y"] = p.y[p.base]
    return s, p, df


def definition(p, s, df):
    p.view(True)
    _, tl, nl = build(p, df)
    gl, al = pieces(p, s, nl, tl)
    p.view(False)
    if p.kind == "plr":
        v = p.d - p.mean(p.d)
        p.theta = float(np.sum(v * p.y) / np.sum(v * v))
    short, ts, ns = build(p, df)
    gs, as_ = pieces(p, s, ns, ts)
    ey, ed = gl - gs, al - as_
    cy = np.mean(ey**2) / np.mean((p.y - gs) ** 2)
    cd = 1 - np.mean(as_**2) / np.mean(al**2)
    rho = 0.0
    if np.mean(ey**2) > 1e-12 and np.mean(ed**2) > 1e-12:
        rho = float(np.mean(ey * ed) / np.sqrt(np.mean(ey**2) * np.mean(ed**2)))
    close(ts - tl, -np.mean(ey * ed), "omitted variable bias formula (self check)", 1e-6, 1e-7 * scale(p))
    return short, ts, tl, cy, cd, rho, (gl, al, gs, as_)


@sub("bounds", SPEC, quick=700)
def bounds(spec, cx):
    s, p, df = setup(spec)
    p_theta = getattr(p, "theta", None)
    if p.kind == "plr":
        p.view(True)
        v = p.d - p.mean(p.d)
        if np.mean(v**2) < 1e-3:
            raise Skip("treatment determined by the confounder")
        p.theta = float(np.sum(v * p.y) / np.sum(v * v))
    short, ts, tl, cy, cd, rho, _ = definition(p, s, df)
    if not (cy < 0.999 and cd < 0.98):
        raise Skip("confounder explains everything")
    cd = max(cd, 0.0)
    quiet(short.fit)
    tol = 1e-6 * scale(p)
    close(short.coef[0], ts, "effect of the short model", 1e-7, tol)
    quiet(lambda: short.sensitivity_analysis(cf_y=float(cy), cf_d=float(cd), rho=1.0, null_hypothesis=float(tl)))
    sp = short.sensitivity_params
    lo, hi = float(sp["theta"]["lower"][0]), float(sp["theta"]["upper"][0])
    ensure(lo - tol <= tl <= hi + tol, f"{p.kind}: bounds [{lo}, {hi}] for the true strength do not contain the long effect {tl} (short {ts})")
    rv = float(sp["rv"][0])
    ensure(rv <= max(cy, cd) + 1e-4, f"{p.kind}: robustness value {rv} although a confounder of strength {cy}, {cd} moves the effect to the null hypothesis")
    quiet(lambda: short.sensitivity_analysis(cf_y=float(cy), cf_d=float(cd), rho=float(np.clip(rho, -1, 1))))
    sp = short.sensitivity_params
    lo, hi = float(sp["theta"]["lower"][0]), float(sp["theta"]["upper"][0])
    end = lo if tl < ts else hi
    close(end, tl, f"{p.kind}: bound for the true strength and correlation", 1e-5, tol * 10)
    cx.label(p.kind, f"score={s['score']}")
    cx.nontrivial(abs(ts - tl) > 1e-4 and 1e-4 < cy and 1e-4 < cd)


@sub("benchmark", SPEC, quick=250)
def benchmark(spec, cx):
    """Leaving an observed confounder out: the benchmark reports its strength."""
    s, p, df = setup(spec)
    if p.kind == "plr":
        p.view(True)
        v = p.d - p.mean(p.d)
        if np.mean(v**2) < 1e-3:
            raise Skip("treatment determined by the confounder")
        p.theta = float(np.sum(v * p.y) / np.sum(v * v))
    _, ts, tl, cy, cd, rho, (gl, al, gs, as_) = definition(p, s, df)
    p.view(True)
    if p.kind == "plr":
        p.theta = tl
    if np.mean((p.y - gl) ** 2) < 1e-6:
        raise Skip("long regression explains everything")
    m, _, _ = build(p, df)
    quiet(m.fit)
    b = quiet(lambda: m.sensitivity_benchmark(["x2"]))
    tol = 1e-6 * scale(p)
    close(b["delta_theta"].iloc[0], ts - tl, "change of the effect", 1e-6, tol)
    gain_y = np.mean((gl - gs) ** 2) / np.mean((p.y - gl) ** 2)
    gain_d = np.mean((al - as_) ** 2) / np.mean(as_**2)
    close(b["cf_y"].iloc[0], min(gain_y, 1.0), "strength for the outcome", 1e-5, 1e-7)
    close(b["cf_d"].iloc[0], min(gain_d, 1.0), "strength for the treatment", 1e-5, 1e-7)
    if gain_y > 1e-6 and gain_d > 1e-6 and abs(ts - tl) > 1e-6:
        close(b["rho"].iloc[0], -rho, "correlation", 1e-4, 1e-6)
    close(m.coef[0], tl, "effect of the long model", 1e-7, tol)
    cx.label(p.kind)
    cx.nontrivial(abs(ts - tl) > 1e-4 and gain_y > 1e-4 and gain_d > 1e-4)


@sub("contrasts", SPEC, quick=200)
def contrasts(spec, cx):
    """Differences of average potential outcomes of a multi-valued treatment: bounds for the true strength contain the long contrast."""
    s, p, df = setup({**spec, "p": {**spec["p"], "kind": "apo"}})
    lv = sorted(set(p.d))
    ref = lv[spec["null"]]

    def parts(long):
        p.view(long)
        g = np.select([p.d == a for a in lv], [p.mean(p.y, p.d == a) for a in lv])
        M = {a: p.mean((p.d == a).astype(float)) for a in lv}
        po = {a: p.mean(p.y, p.d == a).mean() for a in lv}
        al = {a: (p.d == a) / M[a] for a in lv}
        return g, al, po

    gl, al, pl = parts(True)
    gs, as_, ps = parts(False)
    a_ = dml.DoubleMLAPOS(p.data(df), CellReg(), CellCls(), treatment_levels=lv, n_folds=p.k, n_rep=p.r, draw_sample_splitting=False, trimming_threshold=0.01)
    a_.set_sample_splitting(p.smpls)
    quiet(a_.fit)
    refs = [ref] + [v for v in lv if v != ref][: spec["u"] - 1]
    acc = a_.causal_contrast(refs)
    cy = np.mean((gl - gs) ** 2) / np.mean((p.y - gs) ** 2)
    tol = 1e-6 * scale(p)
    if not cy < 0.999:
        raise Skip("confounder explains everything")
    big = 0
    want = [(a, b) for i, b in enumerate(refs) for a in lv if a not in refs[: i + 1]]
    ensure(list(acc.treatment_names) == [f"{a} vs {b}" for a, b in want], f"contrasts {acc.treatment_names}")
    for i, (a, b) in enumerate(want):
        cd = 1 - np.mean((as_[a] - as_[b]) ** 2) / np.mean((al[a] - al[b]) ** 2)
        if not cd < 0.98:
            raise Skip("confounder explains everything")
        tl, ts = pl[a] - pl[b], ps[a] - ps[b]
        close(acc.thetas[i], ts, f"contrast {a} vs {b}", 1e-7, tol)
        acc.sensitivity_analysis(cf_y=float(cy), cf_d=float(max(cd, 0)), rho=1.0)
        lo, hi = float(acc.sensitivity_params["theta"]["lower"][i]), float(acc.sensitivity_params["theta"]["upper"][i])
        ensure(lo - tol <= tl <= hi + tol, f"bounds [{lo}, {hi}] of the contrast {a} vs {b} do not contain the long contrast {tl}")
        S2 = np.mean((p.y - gs) ** 2)
        close(hi - lo, 2 * np.sqrt(cy * max(cd, 0) / (1 - cd) * S2 * np.mean((as_[a] - as_[b]) ** 2)), f"width of the bounds of {a} vs {b}", 1e-5, tol)
        big += abs(tl - ts) > 1e-4 and cd > 1e-4
    cx.label(f"levels={len(lv)}", f"references={len(refs)}")
    cx.nontrivial(big > 0)
