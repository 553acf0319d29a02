"""C14: sensitivity bounds, robustness values, summaries and contour plots."""
import re

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

import doubleml as dml

from .. import common, fw, gen, ref
from ..core import Skip, close, ensure, same, sub
from ..learners import Cls, Reg

RULE = """Result objects with sensitivity elements (1-5 parameters, 1-4 repetitions, independent or clustered observations) and fitted PLR,
IRM, APO, DID, DIDCS and APOS models; strengths 0-0.95, rho in [-1, 1], levels 0.02-0.995, null hypotheses below, inside and above the
bounds, scalar or one per parameter. Non-trivial: positive strengths and rho, and a null hypothesis different from the estimate."""
ASSUMPTIONS = ["robustness value of a confidence limit only where the limit is monotone in the strength (checked on a grid)",
               "|rho| >= 0.05 for robustness values (without correlation the bound does not move)"]


def strength(y, d, rho):
    return abs(rho) * np.sqrt(y * d / (1 - d))


class Bounds:
    def __init__(self, M):
        self.M = M

    def at(self, y, d, rho, level):
        M = self.M
        s = strength(y, d, rho)
        q = norm.ppf(level)
        out = {}
        for side, sg in (("lower", -1.0), ("upper", 1.0)):
            th = M.th + sg * s * M.mb[0]
            se = M.se_of(M.psi + sg * s * M.pmb)
            co, agg = ref.aggregate(th, se, M.scale.reshape(-1, 1))
            out[side] = (co, agg, np.median(th + sg * q * se, axis=1))
        return out


CF = st.one_of(st.sampled_from([0.0, 0.03, 0.1, 0.5]), st.floats(0.0, 0.95))
RHO = st.one_of(st.sampled_from([1.0, -1.0, 0.5, 0.0]), st.floats(-1, 1))
LEVEL = st.one_of(st.sampled_from([0.95, 0.9]), st.floats(0.02, 0.995))


def compare(P, B, what, at):
    for k, i in (("theta", 0), ("se", 1), ("ci", 2)):
        for side in ("lower", "upper"):
            close(P[k][side], B[side][i], f"{what}: {k} {side}", 1e-6, at)


def null_of(M, mode, u):
    co, se = M.agg
    w = np.median(M.mb[0], axis=1) + se
    v = co + w * np.asarray(u)[: len(co)] if len(u) >= len(co) else co + w * np.resize(u, len(co))
    if mode == "zero":
        return 0.0, np.zeros(len(co))
    if mode == "scalar":
        return float(v[0]), np.full(len(co), float(v[0]))
    return np.array(v), np.array(v)


def check_rv(BB, th, rv, rva, null, rho, level, what, scale):
    """The common strength at which the bound reaches the null hypothesis."""
    for i in range(len(th)):
        side = "upper" if null[i] > th[i] else "lower"
        sg = 1.0 if side == "upper" else -1.0
        for name, val, k in (("robustness value", rv[i], 0), ("robustness value with confidence limit", rva[i], 2)):
            f = lambda v: sg * (BB.at(v, v, rho, level)[side][k][i] - null[i])  # noqa: E731  negative: not reached yet
            ensure(0 <= val < 1, f"{what}: {name} {val} outside [0, 1)")
            grid = np.array([f(v) for v in (0.0, 0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.7, 0.9, 0.99, 0.9998)])
            if np.any(np.diff(grid) < 0):
                continue  # limit not monotone in the strength
            if grid[0] >= 0:
                ensure(val < 1e-3, f"{what}: {name} of parameter {i} is {val} but the null hypothesis is reached without confounding")
                continue
            if grid[-1] <= 0:
                ensure(val > 0.99, f"{what}: {name} of parameter {i} is {val} but the null hypothesis is never reached")
                continue
            lo, hi = 0.0, 0.9998
            for _ in range(45):
                mid = (lo + hi) / 2
                if f(mid) < 0:
                    lo = mid
                else:
                    hi = mid
            ensure(abs(val - lo) < 2e-4 or abs(f(val)) < 1e-7 * scale,
                   f"{what}: {name} of parameter {i} (null {null[i]}) is {val}, the {side} bound reaches the null hypothesis at {lo}")


SC = {"y": CF, "d": CF, "rho": RHO, "level": LEVEL, "null": st.sampled_from(["zero", "scalar", "vector"]),
      "u": st.lists(st.floats(-3, 3), min_size=5, max_size=5)}


@sub("bounds", st.fixed_dictionaries({"f": fw.specs(sens=(1, 2), max_r=4), **SC, "y2": CF, "d2": CF, "rho2": RHO}), quick=500)
def bounds(spec, cx):
    sp = dict(spec["f"])
    if sp["cl"]:  # limits the cost
        sp["p"], sp["r"] = min(sp["p"], 2), min(sp["r"], 2)
    M = fw.model(sp)
    f = M.build()
    BB = Bounds(M)
    y, d, rho, lv = spec["y"], spec["d"], spec["rho"], spec["level"]
    arg, null = null_of(M, spec["null"], spec["u"])
    at = 1e-9 * float(np.max(np.abs(M.th)) + np.max(M.mb))
    res = f.sensitivity_analysis(cf_y=y, cf_d=d, rho=rho, level=lv, null_hypothesis=arg)
    ensure(res is f, "sensitivity_analysis returns the object")
    P = f.sensitivity_params
    B = BB.at(y, d, rho, lv)
    compare(P, B, "sensitivity", at)
    co = M.agg[0]
    ensure(np.all(P["theta"]["lower"] <= co + at) and np.all(co <= P["theta"]["upper"] + at), "bounds do not bracket the estimate")
    if strength(y, d, rho) == 0:
        close(P["theta"]["lower"], co, "bound without confounding", 1e-7, at)
        close(P["theta"]["upper"], co, "bound without confounding", 1e-7, at)
    I = P["input"]  # noqa: E741
    same((I["cf_y"], I["cf_d"], I["rho"], I["level"]), (y, d, rho, lv), "recorded scenario")
    close(I["null_hypothesis"], null, "recorded null hypothesis", 1e-12)
    # wider with every strength
    f2 = M.build().sensitivity_analysis(cf_y=max(y, spec["y2"]), cf_d=max(d, spec["d2"]), rho=max(abs(rho), abs(spec["rho2"])), level=lv)
    ensure(np.all(f2.sensitivity_params["theta"]["lower"] <= P["theta"]["lower"] + at)
           and np.all(f2.sensitivity_params["theta"]["upper"] >= P["theta"]["upper"] - at), "bounds do not widen with the strength")
    if abs(rho) >= 0.05 and M.th.size <= 6 and (M.cl is None or M.th.size <= 2):
        check_rv(BB, co, P["rv"], P["rva"], null, rho, lv, "framework", float(np.max(np.abs(M.th)) + np.max(M.mb)))
        cx.label("robustness values checked")
    cx.label(f"p={M.th.shape[0]}", f"r={M.th.shape[1]}", f"clusters={spec['f']['cl']}", "null " + spec["null"])
    cx.nontrivial(strength(y, d, rho) > 0 and bool(np.any(null != co)))


NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def numbers(text):
    return [float(x) for x in re.findall(NUM, text)]


def check_summary(text, P, th, names, what):
    lines = text.split("\n")
    lv = [ln for ln in lines if "evel" in ln and "=" in ln]
    ensure(lv, f"{what}: no level line")
    close(numbers(lv[0].split("=")[-1])[0], P["input"]["level"], f"{what}: level in the summary", 1e-9)
    sc = [ln for ln in lines if "cf_y=" in ln]
    ensure(sc, f"{what}: no scenario line")
    for k in ("cf_y", "cf_d", "rho"):
        close(numbers(re.search(k + r"=(.*)", sc[0]).group(1))[0], P["input"][k], f"{what}: {k} in the summary", 1e-9)

    def table(head):
        i = next((k for k, ln in enumerate(lines) if head in ln), None)
        ensure(i is not None, f"{what}: no table {head}")
        rows = []
        for ln in lines[i + 1: i + 1 + len(names)]:
            rows.append(numbers(ln)[-ncol:])
        return lines[i], rows

    ncol = 5
    head, rows = table("theta lower")
    order = [h for h in re.split(r"\s{2,}", head.strip())]
    same([h.strip() for h in order], ["CI lower", "theta lower", "theta", "theta upper", "CI upper"], f"{what}: columns of the bounds")
    want = np.column_stack((P["ci"]["lower"], P["theta"]["lower"], th, P["theta"]["upper"], P["ci"]["upper"]))
    close(np.array(rows), want, f"{what}: bounds in the summary", 2e-3, 2e-5 * float(np.max(np.abs(want))) + 1.1e-6)
    ncol = 3
    head, rows = table("RVa")
    want = np.column_stack((P["input"]["null_hypothesis"], 100 * P["rv"], 100 * P["rva"]))
    close(np.array(rows), want, f"{what}: robustness values in the summary", 2e-3, 2e-5 * float(np.max(np.abs(want))) + 1.1e-6)
    for i, nm in enumerate(names):
        ln = lines[[k for k, v in enumerate(lines) if "theta lower" in v][0] + 1 + i]
        ensure(ln.split()[0] == str(nm), f"{what}: row {i} of the summary is labelled {ln.split()[0]}, not {nm}")


def check_plot(fig, BB, th, opts, what, at):
    z = np.array(fig.data[0].z, dtype=float)
    xs, ys = np.array(fig.data[0].x, dtype=float), np.array(fig.data[0].y, dtype=float)
    g = opts["grid"]
    same((len(xs), len(ys)), (g, g), f"{what}: grid size")
    close(xs, np.linspace(0, opts["bx"], g), f"{what}: cf_d axis", 1e-9, 1e-12)
    close(ys, np.linspace(0, opts["by"], g), f"{what}: cf_y axis", 1e-9, 1e-12)
    side = "upper" if opts["null"] > th[opts["i"]] else "lower"
    k = {"theta": 0, "ci": 2}[opts["value"]]
    for a, b in opts["pts"]:
        a, b = a % g, b % g
        want = BB.at(ys[b], xs[a], opts["rho"], opts["level"])[side][k][opts["i"]]
        close(z[b, a], want, f"{what}: contour at cf_d={xs[a]:.3f}, cf_y={ys[b]:.3f}", 1e-6, at)
    tr = {t.name: t for t in fig.data}
    ensure(set(tr) <= {"Contour", "Scenario", "Unadjusted", "Benchmarks"}, f"{what}: unknown traces {sorted(tr)}")
    u = tr["Unadjusted"]
    same((list(u.x), list(u.y)), ([0], [0]), f"{what}: unadjusted point")
    if opts["value"] == "theta":
        close(numbers(u.hovertemplate.split(":")[-1])[0], th[opts["i"]], f"{what}: unadjusted value", 0, 6e-4 + 1e-9 * abs(th[opts["i"]]))
    same("Scenario" in tr, opts["scenario"] is not None, f"{what}: scenario shown")
    if opts["scenario"]:
        s = opts["scenario"]
        close([tr["Scenario"].x[0], tr["Scenario"].y[0]], [s["d"], s["y"]], f"{what}: position of the scenario", 1e-9)
        want = BB.at(s["y"], s["d"], s["rho"], s["level"])[side][k][opts["i"]]
        close(numbers(tr["Scenario"].hovertemplate.split(":")[-1])[0], want, f"{what}: value of the scenario", 0, 6e-4 + 1e-6 * abs(want))
    same("Benchmarks" in tr, opts["bench"] is not None, f"{what}: benchmarks shown")
    if opts["bench"]:
        b = opts["bench"]
        close(tr["Benchmarks"].x, b["cf_d"], f"{what}: cf_d of the benchmarks", 1e-9)
        close(tr["Benchmarks"].y, b["cf_y"], f"{what}: cf_y of the benchmarks", 1e-9)
        for m, nm in enumerate(b["name"]):
            want = BB.at(b["cf_y"][m], b["cf_d"][m], opts["rho"], opts["level"])[side][k][opts["i"]]
            close(np.ravel(tr["Benchmarks"].customdata)[m], want, f"{what}: value of benchmark {nm}", 1e-6, at)
            ensure(nm in tr["Benchmarks"].text[m], f"{what}: name of the benchmark")


PLOT = st.fixed_dictionaries({"i": st.integers(0, 4), "value": st.sampled_from(["theta", "ci"]), "rho": RHO, "level": LEVEL,
                              "u": st.floats(-3, 3), "scen": st.booleans(), "bench": st.integers(0, 3), "fill": st.booleans(),
                              "bx": st.floats(0.05, 0.9), "by": st.floats(0.05, 0.9), "grid": st.integers(10, 13),
                              "bseed": gen.SEED})


def plot_opts(p, BB, th, scenario, n_par):
    rng = np.random.default_rng(p["bseed"])
    i = p["i"] % n_par
    null = float(th[i] + p["u"] * (float(np.median(BB.M.mb[0, i])) + 1e-9))
    bench = None
    if p["bench"]:
        k = p["bench"]
        bench = {"cf_y": [float(v) for v in rng.uniform(0, 0.8, k)], "cf_d": [float(v) for v in rng.uniform(0, 0.8, k)],
                 "name": [f"bench{j}" for j in range(k)]}
    o = {"i": i, "value": p["value"], "rho": p["rho"], "level": p["level"], "null": null, "bx": p["bx"], "by": p["by"], "grid": p["grid"],
         "bench": bench, "scenario": scenario if p["scen"] else None,
         "pts": [(int(a), int(b)) for a, b in rng.integers(0, 1000, (12, 2))] + [(0, p["grid"] - 1), (p["grid"] - 1, 0), (0, 0)]}
    kw = dict(idx_treatment=i, value=p["value"], rho=p["rho"], level=p["level"], null_hypothesis=null, include_scenario=p["scen"],
              benchmarks=bench, fill=p["fill"], grid_bounds=(p["bx"], p["by"]), grid_size=p["grid"])
    return o, kw


@sub("summary_and_plot", st.fixed_dictionaries({"f": fw.specs(sens=(1, 2), max_r=3, max_p=3, cluster=(0,)), **SC, "p": PLOT}), quick=220)
def summary_and_plot(spec, cx):
    sp = dict(spec["f"], names=True, mag=1.0)
    M = fw.model(sp)
    f = M.build()
    ensure("sensitivity_analysis()" in f.sensitivity_summary, "summary without analysis")
    arg, null = null_of(M, spec["null"], spec["u"])
    th = M.agg[0]
    BB = Bounds(M)
    at = 1e-8 * float(np.max(np.abs(M.th)) + np.max(M.mb))
    if spec["p"]["scen"] or spec["p"]["bseed"] % 2:
        f.sensitivity_analysis(cf_y=spec["y"], cf_d=spec["d"], rho=spec["rho"], level=spec["level"], null_hypothesis=arg)
        check_summary(f.sensitivity_summary, f.sensitivity_params, th, M.names, "framework")
    o, kw = plot_opts(spec["p"], BB, th, {k: spec[k] for k in ("y", "d", "rho", "level")}, len(th))
    check_plot(f.sensitivity_plot(**kw), BB, th, o, "plot", at)
    cx.label(o["value"], "scenario" if o["scenario"] else "no scenario", f"benchmarks={spec['p']['bench']}")
    cx.nontrivial(spec["p"]["rho"] != 0)


@sub("models", st.fixed_dictionaries({"c": gen.specs(kinds=("plr", "plr", "irm", "apo", "apo", "did", "didcs"), cluster=(0, 0, 0, 1), max_k=3, max_r=3,
                                                     over={"nt": st.sampled_from([1, 2, 3])}),
                                      **SC, "p": PLOT, "apos": st.booleans()}), quick=250)
def models(spec, cx):
    sp = dict(spec["c"], o=dict(spec["c"]["o"]))
    if str(sp["o"].get("score", "")).startswith("callable"):
        sp["o"]["score"] = "partialling out" if sp["kind"] == "plr" else "ATE"
    c = common.need_cells(gen.Case(sp))
    if spec["apos"] and c.kind == "apo" and not c.cl:
        names = [0, 1, 2]
        w = c.weights_arg
        m = dml.DoubleMLAPOS(c.data(), Reg(0.3), Cls(0.3), treatment_levels=names, weights=w, n_folds=c.k, n_rep=c.r,
                             draw_sample_splitting=False, normalize_ipw=c.o["norm"], trimming_threshold=max(c.o["trim"], 0.01))
        m.set_sample_splitting(c.smpls)
    else:
        names = c.dn
        m = c.make()
    try:
        m.fit()
    except ValueError as e:
        if "sigma2 and nu2" in str(e):
            raise Skip("negative variance")
        raise
    f = m.framework
    if not np.all(m.all_se > 0):
        raise Skip("degenerate")
    scale = float(c.n) if not c.cl else float(min(len(np.unique(c.C[:, j])) for j in range(c.cl)))
    E = f.sensitivity_elements
    P = len(names)
    # bias bound from its ingredients
    if len(names) == c.nt and names is c.dn:
        s = m.sensitivity_elements
        tr = lambda v: np.transpose(v, (0, 2, 1))  # noqa: E731
        mb = np.sqrt(tr(s["sigma2"]) * tr(s["nu2"]))
        if not np.all(np.isfinite(mb)) or np.any(mb <= 1e-12):
            raise Skip("no positive variance elements")
        pmb = (tr(s["sigma2"]) * tr(s["psi_nu2"]) + tr(s["nu2"]) * tr(s["psi_sigma2"])) / (2 * mb)
        close(E["max_bias"], mb, "bias bound", 1e-7)
        close(E["psi_max_bias"], pmb, "score of the bias bound", 1e-7, 1e-9)
    m.sensitivity_analysis(cf_y=0.0, cf_d=0.0, rho=1.0, level=0.9)
    for side in ("lower", "upper"):
        close(m.sensitivity_params["theta"][side], m.coef, f"{side} bound without confounding", 1e-9, 1e-12)
        close(m.sensitivity_params["se"][side], m.se, f"standard error of the {side} bound without confounding", 1e-6, 1e-12)
    M = fw.Model(np.array(m.all_coef), np.array(f.scaled_psi), np.full(P, scale), None if not c.cl else (c.C, c.smpls, c.smpls_cluster, c.k),
                 np.array(E["max_bias"]), np.array(E["psi_max_bias"]))
    BB = Bounds(M)
    th = np.array(m.coef)
    arg, null = null_of(M, spec["null"], spec["u"])
    m.sensitivity_analysis(cf_y=spec["y"], cf_d=spec["d"], rho=spec["rho"], level=spec["level"], null_hypothesis=arg)
    at = 1e-7 * float(np.max(np.abs(M.th)) + np.max(M.mb))
    Pm = m.sensitivity_params
    compare(Pm, BB.at(spec["y"], spec["d"], spec["rho"], spec["level"]), f"{c.kind} model", at)
    if abs(spec["rho"]) >= 0.05 and M.th.size <= 4 and not c.cl:
        check_rv(BB, th, Pm["rv"], Pm["rva"], null, spec["rho"], spec["level"], f"{c.kind} model", float(np.max(np.abs(M.th)) + np.max(M.mb)))
    if names is c.dn:
        check_summary(m.sensitivity_summary, Pm, th, names, f"{c.kind} model")
    if not c.cl:
        o, kw = plot_opts(spec["p"], BB, th, {k: spec[k] for k in ("y", "d", "rho", "level")}, P)
        check_plot(m.sensitivity_plot(**kw), BB, th, o, f"{c.kind} plot", at)
    cx.label(c.kind if names is c.dn else "apos", f"p={P}", f"r={c.r}", f"clusters={c.cl}")
    cx.nontrivial(spec["rho"] != 0 and spec["y"] > 0)


_ = common
