"""C13: algebra of results."""
import copy

import numpy as np
from hypothesis import strategies as st

import doubleml as dml
from doubleml.double_ml_framework import DoubleMLFramework

from .. import common, fw, gen, ref
from ..core import Skip, close, ensure, raises, same, sub

RULE = """Expression trees (up to 8 leaves) of sums, differences, multiples by positive, negative, zero, integer and float factors, over
result objects with 1-5 parameters, 1-5 repetitions, independent or one-/two-way clustered observations, with or without sensitivity
elements, finished by an optional concatenation; every intermediate result is compared with a numpy model of the linear map.
Non-trivial: at least two operations of which one combines two objects."""
ASSUMPTIONS = ["sensitivity bias bounds of a difference add up (upper bound of the bias of a difference)"]

LEAF = st.integers(0, 3).map(lambda i: ["leaf", i])
FACTOR = st.one_of(st.sampled_from([-1, 2, 0, -3, 1, -1.0, 0.5, -0.25, 1e3, -1e-3]), st.floats(-5, 5).map(lambda v: round(v, 3)))


def grow(ch):
    return st.one_of(st.tuples(st.just("+"), ch, ch).map(list), st.tuples(st.just("-"), ch, ch).map(list),
                     st.tuples(st.just("*"), FACTOR, ch, st.booleans()).map(list))


TREE = st.recursive(LEAF, grow, max_leaves=8)


def state(f):
    g = {"thetas": f.thetas, "ses": f.ses, "all_thetas": f.all_thetas, "all_ses": f.all_ses, "psi": f.scaled_psi,
         "scale": f.var_scaling_factors, "names": f.treatment_names}
    if f.sensitivity_elements is not None:
        g.update({"s_" + k: v for k, v in f.sensitivity_elements.items()})
    return copy.deepcopy(g)


def same_state(a, b, what):
    same(sorted(a), sorted(b), what)
    for k in a:
        eqv = a[k] == b[k] if k == "names" else np.array_equal(a[k], b[k], equal_nan=True)
        ensure(eqv, f"{what}: {k} changed")


def run(tree, M, F, log):
    if tree[0] == "leaf":
        return M[tree[1]], F[tree[1]]
    if tree[0] == "*":
        m, f = run(tree[2], M, F, log)
        before = state(f)
        g = tree[1] * f if tree[3] else f * tree[1]
        same_state(before, state(f), "operand of a multiplication")
        out = m.times(tree[1])
    else:
        m1, f1 = run(tree[1], M, F, log)
        m2, f2 = run(tree[2], M, F, log)
        b1, b2 = state(f1), state(f2)
        g = f1 + f2 if tree[0] == "+" else f1 - f2
        same_state(b1, state(f1), f"left operand of {tree[0]}")
        same_state(b2, state(f2), f"right operand of {tree[0]}")
        out = m1.plus(m2, 1.0 if tree[0] == "+" else -1.0)
    log.append(tree[0])
    out.compare(g, f"result of {tree[0]}{tree[1] if tree[0] == '*' else ''}")
    ci = g.confint(level=0.9)
    co = out.agg[0]
    at = 1e-9 * (float(np.max(np.abs(out.th))) + float(np.max(out.all_se)) + 1e-300)
    ensure(np.all(ci.values[:, 0] <= co + at) and np.all(co <= ci.values[:, 1] + at), f"interval of the result of {tree[0]} misses its estimate")
    if out.mb is not None and "sens" not in log and out.cl is None and out.th.size <= 6 and np.all(out.all_se > 0):
        log.append("sens")
        g.sensitivity_analysis(cf_y=0.1, cf_d=0.1)
        s = np.sqrt(0.1 * 0.1 / 0.9)
        close(g.sensitivity_params["theta"]["lower"], np.median(out.th - s * out.mb[0], axis=1), "lower bound of the result", 1e-6,
              1e-9 * float(np.max(np.abs(out.th))))
    return out, g


@sub("expressions", st.fixed_dictionaries({"f": fw.specs(max_r=4), "t": TREE, "cat": st.integers(0, 3), "drop": st.integers(0, 3)}), quick=1100)
def expressions(spec, cx):
    s = spec["f"]
    M = [fw.model(s, i) for i in range(4)]
    if s["sens"] and spec["drop"] == 1:  # one operand without sensitivity elements
        M[1].mb = M[1].pmb = M[1].s2 = M[1].nu2 = None
    F = [m.build() for m in M]
    b = [state(f) for f in F]
    log = []
    m, f = run(spec["t"], M, F, log)
    if spec["cat"]:
        parts_m, parts_f = [m] + M[: spec["cat"]], [f] + F[: spec["cat"]]
        if s["cl"]:
            raises(NotImplementedError, lambda: dml.concat(parts_f), "concatenation with clusters")
        else:
            for p in M[: spec["cat"]]:
                m = m.cat(p)
            f = dml.concat(parts_f)
            m.compare(f, "concatenation")
            ci = f.confint()
            close(ci.values, np.concatenate([p.confint().values for p in parts_f]), "interval of the concatenation", 1e-9,
                  1e-12 * float(np.max(np.abs(m.th))))
    for x, y in zip(b, F):
        same_state(x, state(y), "operand after the whole expression")
    cx.label(f"ops={min(len(log), 6)}", f"clusters={s['cl']}", f"sens={s['sens']}", "concat" if spec["cat"] else "")
    cx.nontrivial(sum(v != "sens" for v in log) >= 2 and ("+" in log or "-" in log))


def eq(f, g, what):
    at = 1e-9 * (float(np.max(np.abs(f.all_thetas))) + float(np.max(f.all_ses))) + 1e-300
    for k in ("thetas", "ses", "all_thetas", "all_ses"):
        close(getattr(f, k), getattr(g, k), f"{what}: {k}", 1e-7, at * 10)
    close(f.scaled_psi, g.scaled_psi, f"{what}: scores", 1e-7, 1e-9 * float(np.max(np.abs(f.scaled_psi)) + 1e-300) * 10)
    if f.sensitivity_elements is not None and g.sensitivity_elements is not None:
        close(f.sensitivity_elements["max_bias"], g.sensitivity_elements["max_bias"], f"{what}: bias bound", 1e-7)


@sub("laws", st.fixed_dictionaries({"f": fw.specs(max_r=4), "c": FACTOR, "e": FACTOR}), quick=500)
def laws(spec, cx):
    a, b, c = (fw.model(spec["f"], i).build() for i in range(3))
    k, e = spec["c"], spec["e"]
    eq(a + b, b + a, "commutativity")
    eq((a + b) + c, a + (b + c), "associativity")
    eq(k * (a + b), k * a + k * b, "distributivity")
    if k * e >= 0:
        eq((k + e) * a, k * a + e * a, "distributivity over factors")
    eq(k * (e * a), (k * e) * a, "factors multiply")
    d = a - b
    close(d.all_thetas, (a + (-1 * b)).all_thetas, "difference is the sum with the negative", 1e-9, 1e-9 * float(np.max(np.abs(a.all_thetas))))
    close(d.all_ses, (a + (-1 * b)).all_ses, "standard error of the difference", 1e-7, 1e-9 * float(np.max(a.all_ses)))
    back = d + b
    close(back.all_thetas, a.all_thetas, "adding back", 1e-7, 1e-8 * float(np.max(np.abs(a.all_thetas)) + np.max(np.abs(b.all_thetas))))
    close(back.all_ses, a.all_ses, "standard error after adding back", 1e-6, 1e-8 * float(np.max(a.all_ses)))
    z = a - a
    close(z.all_thetas, np.zeros_like(z.all_thetas), "difference with itself", 0, 1e-12 * float(np.max(np.abs(a.all_thetas))))
    close(z.all_ses, np.zeros_like(z.all_ses), "standard error of the difference with itself", 0, 1e-12 * float(np.max(a.all_ses)))
    cx.label(f"clusters={spec['f']['cl']}")
    cx.nontrivial(a.all_thetas.size > 1)


BAD = ["n_obs", "n_rep", "n_thetas", "cluster", "number", "none", "product", "string", "sum", "array factor", "empty concat", "concat model",
       "concat n_obs", "concat n_rep"]


@sub("refused", st.fixed_dictionaries({"f": fw.specs(max_r=3), "m": st.sampled_from(BAD), "swap": st.booleans()}), quick=500)
def refused(spec, cx):
    s = dict(spec["f"])
    a = fw.model(s).build()
    o = dict(s)
    m = spec["m"]
    if "n_obs" in m:
        o["n"] = s["n"] + 3 if s["cl"] != 2 else max(s["n"], 50) + 3
    if "n_rep" in m:
        o["r"] = s["r"] + 1
    if "n_thetas" in m:
        o["p"] = s["p"] + 1
    if m == "cluster":
        o["cl"], o["n"] = (1, s["n"]) if not s["cl"] else (0, max(s["n"], 50) if s["cl"] == 2 else s["n"])
    b = fw.model(o, 1).build()
    st_a, st_b = state(a), state(b)
    x, y = (b, a) if spec["swap"] else (a, b)
    E = (ValueError, TypeError, NotImplementedError)
    if m in ("n_obs", "n_rep", "n_thetas", "cluster"):
        raises(E, lambda: x + y, f"sum with different {m}")
        raises(E, lambda: x - y, f"difference with different {m}")
    elif m == "number":
        for v in (1, 0.5, np.float64(2.0)):
            raises(E, lambda: a + v, "sum with a number")
            raises(E, lambda: a - v, "difference with a number")
            raises(E, lambda: v - a, "difference with a number") if not isinstance(v, np.generic) else None
    elif m == "none":
        raises(E, lambda: a + None, "sum with None")
        raises(E, lambda: a * None, "product with None")
    elif m == "product":
        raises(E, lambda: a * fw.model(s, 1).build(), "product of two results")
    elif m == "string":
        raises(E, lambda: a * "2", "product with a string")
        raises(E, lambda: "2" * a, "product with a string")
    elif m == "sum":
        raises(E, lambda: sum([a, a]), "sum starting with zero")
    elif m == "array factor":
        raises(E, lambda: a * np.ones(a.n_thetas), "product with an array")
        raises(E, lambda: a * [1.0], "product with a list")
    elif m == "empty concat":
        raises(E, lambda: dml.concat([]), "empty concatenation")
    elif m == "concat model":
        raises(E, lambda: dml.concat([a, 1.0]), "concatenation with a number")
    elif m.startswith("concat"):
        raises(E, lambda: dml.concat([x, y]), f"concatenation with different {m}")
        raises(E, lambda: dml.concat([x, x, y]), f"concatenation with different {m}")
    same_state(st_a, state(a), "operand after a refused operation")
    same_state(st_b, state(b), "operand after a refused operation")
    cx.label(m)
    cx.nontrivial()


@sub("models", st.fixed_dictionaries({"c": gen.specs(kinds=("plr", "irm", "apo", "did", "pq", "iivm"), max_k=3, max_r=3, cluster=(0, 0, 1)),
                                      "k": FACTOR}), quick=250)
def models(spec, cx):
    """Results of fitted models: operations on the framework agree with direct computation from the model's scores."""
    sp = dict(spec["c"])
    if sp["kind"] == "pq":
        sp["cl"] = 0
    c = common.need_cells(gen.Case(sp))
    m1 = c.make().fit()
    L = {k: v for k, v in c.learners.items()}
    from sklearn.base import clone

    L2 = {k: clone(v).set_params(alpha=7.0) for k, v in L.items()}
    m2 = c.make(learners=L2).fit()
    if not (np.all(m1.all_se > 0) and np.all(m2.all_se > 0)):
        raise Skip("degenerate")
    f1, f2 = m1.framework, m2.framework
    for op, sg in (("+", 1.0), ("-", -1.0)):
        f = f1 + f2 if sg > 0 else f1 - f2
        close(f.all_thetas, m1.all_coef + sg * m2.all_coef, f"estimates of {op}", 1e-9, 1e-10)
        if not c.cl:
            d1, d2 = np.mean(m1.psi_deriv, axis=0), np.mean(m2.psi_deriv, axis=0)
            psi = m1.psi / d1 + sg * m2.psi / d2
            close(f.all_ses, np.sqrt(np.mean(psi**2, axis=0) / c.n).T, f"standard errors of {op}", 1e-6, 1e-12)
        else:
            for r in range(c.r):
                for j in range(c.nt):
                    psi = 0.0
                    for m, q in ((m1, 1.0), (m2, sg)):
                        psi = psi + q * m.psi[:, r, j] / ref.cluster_mean(m.psi_deriv[:, r, j], c.smpls[r], c.smpls_cluster[r])
                    se, _ = ref.sandwich_cluster(psi, np.ones(c.n), c.C, c.smpls[r], c.smpls_cluster[r], c.k)
                    close(f.all_ses[j, r], se, f"clustered standard error of {op}", 1e-6, 1e-12)
    g = spec["k"] * f1
    close(g.thetas, spec["k"] * m1.coef, "multiple", 1e-9, 1e-12)
    close(g.ses, abs(spec["k"]) * m1.se, "standard error of a multiple", 1e-9, 1e-14)
    g = f1 + f1
    close(g.all_ses, 2 * np.asarray(m1.all_se), "standard error of the sum of a result with itself", 1e-6, 1e-12)
    # a refit of the model leaves earlier results alone
    keep = state(f1)
    m1.fit()
    same_state(keep, state(f1), "framework after a refit of its model")
    cx.label(c.kind, f"clusters={c.cl}")
    cx.nontrivial(bool(np.any(m1.all_coef != m2.all_coef)))


_ = DoubleMLFramework
