"""Oracle helpers shared by several properties."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Fail, Skip, close, ensure

EXTERNAL = ("plr", "pliv", "irm", "apo", "iivm", "did", "didcs")


def need_cells(c):
    """Clustered splittings are not stratified: cases with an empty conditional training cell are outside the domain."""
    if c.strata is None:
        return c
    full = set(np.unique(c.strata))
    for sm in c.smpls:
        for tr, te in sm:
            if set(np.unique(c.strata[tr])) != full or len(te) == 0:
                raise Skip("empty training cell")
    return c


def stored(c, m, r, j):
    return {nm: np.array(m.predictions[nm][:, r, j], dtype=float) for nm in c.nuis_names()}


def stale_finding(cx, kid, ok_doc, ok_pkg, what):
    if ok_doc:
        return
    if ok_pkg:
        cx.known_finding(kid, what)
        return
    raise Fail(what)


def external(c, kinds=None, names=None, seed=0, inside=False, extreme=True):
    """Adversarial nuisance values: treatment -> name -> (n, n_rep)."""
    rng = np.random.default_rng(seed)
    out = {}
    sy = np.std(c.Y) + 0.1
    for j, dn in enumerate(c.dn):
        out[dn] = {}
        for nm in (c.nuis_names() if names is None else names):
            sh = (c.n, c.r)
            prob = nm in ("ml_r0", "ml_r1") or (nm == "ml_m" and c.kind not in ("plr", "pliv")) or (
                nm.startswith("ml_m") and c.kind == "lpq") or (nm.startswith("ml_g") and c.kind in ("pq", "lpq"))
            if prob:
                v = rng.uniform(0.15, 0.85, sh)
                if nm in ("ml_m", "ml_m_z") and extreme:
                    lo = rng.random(sh)
                    v = np.where(lo < 0.1, rng.uniform(0.0, 0.05, sh), v)
                    v = np.where(lo > 0.9, rng.uniform(0.95, 1.0, sh), v)
                    v = np.where((lo > 0.48) & (lo < 0.5), 0.0, v)
                    v = np.where((lo > 0.5) & (lo < 0.52), 1.0, v)
                if nm == "ml_r0":
                    v = v * (1.0 if c.o.get("at", True) else 0.0)
                if nm == "ml_r1" and not c.o.get("nv", True):
                    v = np.ones(sh)
            elif nm.startswith("ml_r") and c.kind == "pliv":
                v = 0.5 * c.D[:, [j]] + rng.normal(0, 1, sh)
            elif nm.startswith("ml_m") and c.kind == "pliv":
                i = c.zn.index(nm[5:]) if nm.startswith("ml_m_") else 0
                v = 0.5 * c.Z[:, [i]] + rng.normal(0, 0.5, sh)
            elif nm == "ml_m" and c.kind == "plr":
                v = 0.4 * c.D[:, [j]] + rng.normal(0, 0.3, sh)
            else:
                v = 0.6 * c.Y[:, None] + sy * rng.normal(0, 1, sh)
            out[dn][nm] = v
    return out


def check_linear(c, m, cx=None, rtol=1e-7, iivm_finding=None):
    """Scores, derivatives, coefficient and standard error of every repetition and treatment against the documented score."""
    P_all = {}
    for r in range(c.r):
        for j in range(c.nt):
            P = stored(c, m, r, j)
            P_all[r, j] = P
            a, b = ref.score(c, j, r, P, c_smpls(m, r))
            if iivm_finding and c.o["norm"]:
                c.iivm_norm_by_d = False
                a2, b2 = ref.score(c, j, r, P, c_smpls(m, r))
                c.iivm_norm_by_d = True
                if np.allclose(m.psi_elements["psi_b"][:, r, j], b2, rtol=1e-7, atol=1e-9):
                    a, b = a2, b2
                elif np.allclose(m.psi_elements["psi_b"][:, r, j], b, rtol=1e-7, atol=1e-9):
                    cx.known_finding(iivm_finding, "normalize_ipw normalizes with the treatment instead of the instrument")
            th = ref.solve(a, b)
            w = f"{c.kind} rep {r} treatment {c.dn[j]}"
            close(m.psi_elements["psi_a"][:, r, j], a, w + " psi_a", rtol, 1e-9)
            close(m.psi_elements["psi_b"][:, r, j], b, w + " psi_b", rtol, 1e-9)
            if abs(np.mean(a)) < 1e-6 * np.mean(np.abs(a)):
                raise Skip("score without derivative")
            close(m.all_coef[j, r], th, w + " coefficient", 1e-6, 1e-9)
            psi = a * th + b
            close(m.psi[:, r, j], psi, w + " score value", 1e-6, 1e-8)
            close(m.psi_deriv[:, r, j], a, w + " score derivative", rtol, 1e-9)
            close(m.all_se[j, r], ref.sandwich(psi, a), w + " standard error", 1e-6, 1e-10)
            sc = np.mean(np.abs(a * th) + np.abs(b))
            ensure(abs(np.mean(m.psi[:, r, j])) <= 1e-8 * max(1.0, sc), w + " score has a nonzero mean at the estimate")
    return P_all


def c_smpls(m, r):
    return m.smpls[r]


def agg_check(c, m):
    scale = c.n
    co, se = ref.aggregate(np.asarray(m.all_coef), np.asarray(m.all_se), scale)
    close(m.coef, co, f"{c.kind} reported coefficient")
    close(m.se, se, f"{c.kind} reported standard error")


def with_flag(strategy, **extra):
    """{'c': spec, **extra}"""
    return st.fixed_dictionaries({"c": strategy, **extra})


__all__ = ["gen", "ref"]
