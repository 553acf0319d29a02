"""C12: multiple-testing adjustment."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

import doubleml as dml

from .. import fw, gen
from ..core import Skip, close, ensure, raises, same, sub
from ..learners import Cls, Reg

RULE = """Result objects with 1-6 parameters, 1-5 repetitions, correlated scores, estimates from null to highly significant, exact ties and
duplicated parameters; Romano-Wolf (both names, any case) and eight adjustments of raw p-values. Non-trivial: several parameters
and at least one adjusted p-value strictly between 0 and 1."""
ASSUMPTIONS = ["reference procedures written from their definitions (Hommel: closed test with Simes, by enumeration)"]


def bonf(p):
    return np.minimum(1, len(p) * p)


def sidak(p):
    return -np.expm1(len(p) * np.log1p(-np.minimum(p, 1 - 1e-16)))


def stepdown(p, f):
    o = np.argsort(p, kind="stable")
    out = np.empty(len(p))
    run = 0.0
    for i, j in enumerate(o):
        run = max(run, f(p[j], len(p) - i))
        out[j] = min(1, run)
    return out


def holm(p):
    return stepdown(p, lambda q, m: q * m)


def holm_sidak(p):
    return stepdown(p, lambda q, m: -np.expm1(m * np.log1p(-min(q, 1 - 1e-16))))


def stepup(p, f):
    o = np.argsort(-p, kind="stable")
    out = np.empty(len(p))
    run = 1.0
    for i, j in enumerate(o):
        run = min(run, f(p[j], len(p) - i))
        out[j] = run
    return out


def hochberg(p):
    m = len(p)
    return stepup(p, lambda q, rank: q * (m - rank + 1))


def bh(p):
    m = len(p)
    return stepup(p, lambda q, rank: q * m / rank)


def by(p):
    m = len(p)
    c = sum(1 / i for i in range(1, m + 1))
    return stepup(p, lambda q, rank: q * m * c / rank)


def hommel(p):
    m = len(p)
    out = np.zeros(m)
    for k in range(1, m + 1):
        for S in itertools.combinations(range(m), k):
            q = np.sort(p[list(S)])
            simes = np.min(k * q / np.arange(1, k + 1))
            for i in S:
                out[i] = max(out[i], simes)
    return np.minimum(1, out)


REF = {"bonferroni": bonf, "sidak": sidak, "holm": holm, "holm-sidak": holm_sidak, "simes-hochberg": hochberg, "hommel": hommel,
       "fdr_bh": bh, "fdr_by": by}


def romano_wolf(t, B):
    t, B = np.abs(t), np.abs(B)
    o = sorted(range(len(t)), key=lambda i: -t[i])
    out = np.empty(len(t))
    run = 0.0
    for i, j in enumerate(o):
        run = max(run, np.mean(np.max(B[:, o[i:]], axis=1) >= t[j]))
        out[j] = run
    return out


SPEC = st.fixed_dictionaries({"f": fw.specs(max_p=6, cluster=(0,)), "rs": gen.SEED, "b": st.integers(5, 150), "dup": st.booleans(),
                              "name": st.sampled_from(["romano-wolf", "rw", "RW", "Romano-Wolf"]), "perm": gen.SEED, "flip": st.booleans(),
                              "bm": st.sampled_from(["normal", "Bayes", "wild"])})


def build(spec):
    M = fw.model(spec["f"])
    if spec["dup"] and M.th.shape[0] > 1:  # exact ties
        M.th[-1], M.psi[:, -1] = M.th[0], M.psi[:, 0]
        M.all_se = M.se_of(M.psi)
    if spec["flip"]:
        M.th[0] *= -1
        M.psi[:, 0] *= -1
    return M


def check_frame(df, allp, M, what):
    same(df.shape, (M.th.shape[0], 2), what + " shape")
    same(list(df.columns), ["thetas", "pval"], what + " columns")
    close(df["thetas"], M.agg[0], what + " estimates", 1e-7, 1e-12 * float(np.max(np.abs(M.th))))
    close(df["pval"], np.median(allp, axis=1), what + " aggregated p-values", 1e-9, 1e-12)
    ensure(np.all(allp >= 0) and np.all(allp <= 1), what + ": p-value outside [0, 1]")


@sub("romano_wolf", SPEC, quick=900)
def rw(spec, cx):
    M = build(spec)
    f = M.build()
    raises(ValueError, lambda: f.p_adjust(spec["name"]), "Romano-Wolf without bootstrap")
    np.random.seed(spec["rs"] % 2**32)
    f.bootstrap(method=spec["bm"], n_rep_boot=spec["b"])
    B = np.array(f.boot_t_stat)
    df, allp = f.p_adjust(spec["name"])
    T = M.th / M.all_se
    near = np.min(np.abs(np.abs(B)[:, :, None, :] - np.abs(T)[None, None, :, :])) < 1e-10
    if near:
        raise Skip("numerical tie of a bootstrap statistic")
    for r in range(T.shape[1]):
        close(allp[:, r], romano_wolf(T[:, r], B[:, :, r]), f"Romano-Wolf p-values of repetition {r}", 1e-9, 1e-12)
        o = np.argsort(-np.abs(T[:, r]))
        ensure(np.all(np.diff(allp[o, r]) >= -1e-12), "p-values are not monotone in the t-statistics")
    check_frame(df, allp, M, "Romano-Wolf")
    # other order of the parameters, same multipliers
    pm = np.random.default_rng(spec["perm"]).permutation(T.shape[0])
    M2 = fw.Model(M.th[pm], M.psi[:, pm], M.scale[pm])
    g = M2.build()
    np.random.seed(spec["rs"] % 2**32)
    g.bootstrap(method=spec["bm"], n_rep_boot=spec["b"])
    if np.allclose(g.boot_t_stat, B[:, pm]):  # the same multipliers were drawn
        df2, allp2 = g.p_adjust()
        close(allp2, allp[pm], "p-values after reordering the parameters", 1e-9, 1e-12)
        close(df2["pval"], df["pval"].values[pm], "aggregated p-values after reordering", 1e-9, 1e-12)
    df3, allp3 = f.p_adjust()
    close(allp3, allp, "default method is Romano-Wolf", 1e-12)
    cx.label(f"p={T.shape[0]}", f"r={T.shape[1]}", "ties" if spec["dup"] else "no ties")
    cx.nontrivial(T.shape[0] > 1 and bool(np.any((allp > 0) & (allp < 1))))


@sub("raw_adjustments", st.fixed_dictionaries({"s": SPEC, "m": st.sampled_from(sorted(REF))}), quick=900)
def raw(spec, cx):
    M = build(spec["s"])
    f = M.build()
    df, allp = f.p_adjust(spec["m"])
    p = 2 * norm.sf(np.abs(M.th / M.all_se))
    for r in range(p.shape[1]):
        close(allp[:, r], REF[spec["m"]](p[:, r]), f"{spec['m']} p-values of repetition {r}", 1e-6, 1e-10)
    ensure(np.all(allp >= p - 1e-9), "adjusted p-value below the raw one")
    check_frame(df, allp, M, spec["m"])
    pm = np.random.default_rng(spec["s"]["perm"]).permutation(p.shape[0])
    df2, allp2 = fw.Model(M.th[pm], M.psi[:, pm], M.scale[pm]).build().p_adjust(spec["m"])
    close(allp2, allp[pm], "p-values after reordering the parameters", 1e-9, 1e-12)
    cx.label(spec["m"], f"p={p.shape[0]}")
    cx.nontrivial(p.shape[0] > 1 and bool(np.any((allp > 0) & (allp < 1))))


@sub("models", st.fixed_dictionaries({"c": gen.specs(kinds=("plr", "pliv", "pq"), max_k=3, max_r=3, over={"nt": st.sampled_from([2, 3])}),
                                      "rs": gen.SEED, "m": st.sampled_from(sorted(REF) + ["romano-wolf"] * 6), "b": st.integers(5, 80)}),
     quick=250)
def models(spec, cx):
    c = gen.Case(spec["c"])
    if c.kind == "pq":
        names = [0.4, 0.5, 0.6]
        m = dml.DoubleMLQTE(c.data(), Cls(0.3), Cls(0.3), quantiles=names, n_folds=c.k, n_rep=c.r, draw_sample_splitting=False)
        m.set_sample_splitting(c.smpls)
    else:
        names = c.dn
        m = c.make()
    m.fit()
    A, S = np.asarray(m.all_coef), np.asarray(m.all_se)
    if not np.all(S > 0) or not np.all(np.isfinite(S)):
        raise Skip("degenerate")
    np.random.seed(spec["rs"] % 2**32)
    m.bootstrap(n_rep_boot=spec["b"])
    B = np.array(m.boot_t_stat)
    df = m.p_adjust(spec["m"])
    T = A / S
    if spec["m"] == "romano-wolf":
        want = np.stack([romano_wolf(T[:, r], B[:, :, r]) for r in range(c.r)], axis=1)
    else:
        want = np.stack([REF[spec["m"]](2 * norm.sf(np.abs(T[:, r]))) for r in range(c.r)], axis=1)
    close(df["pval"], np.median(want, axis=1), f"{spec['m']} p-values of the model", 1e-6, 1e-10)
    close(df["thetas"], m.coef, "estimates in the table", 1e-10)
    same([str(v) for v in df.index], [str(v) for v in names], "row names")
    cx.label(c.kind, spec["m"])
    cx.nontrivial(len(names) > 1)
