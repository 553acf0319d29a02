"""C02: sample splittings."""
import copy

import numpy as np
from hypothesis import strategies as st

import doubleml as dml
from doubleml.utils.resampling import DoubleMLClusterResampling, DoubleMLResampling

from .. import common, gen
from ..core import Fail, close, ensure, raises, same, sub
from ..learners import Cls, Reg

RULE = """Drawn: model class, sample size, 2-7 folds, 1-4 repetitions, strata of any size >= folds, one- and two-way clusters with
uneven cluster sizes. Supplied: a valid splitting (lists, tuples or arrays, unsorted, training sets smaller than the complement,
unequal folds, one fold) or one damaged by a single mutation. Non-trivial: unequal fold sizes, uneven strata, or a damaged input."""
ASSUMPTIONS = ["strata: treatment status (IRM, APO, APOS, PQ, CVaR, QTE, DID), treatment x instrument (IIVM, LPQ), treatment x time (DIDCS), "
               "treatment x selection (SSM)"]


def check_partition(rep, n, k, what, complement=True):
    same(len(rep), k, what + ": number of folds")
    tests = np.concatenate([te for _, te in rep])
    same(sorted(tests.tolist()), list(range(n)), what + ": test sets do not partition the observations")
    for f, (tr, te) in enumerate(rep):
        ensure(len(np.intersect1d(tr, te)) == 0, f"{what}: fold {f} trains on its test observations")
        ensure(len(np.unique(tr)) == len(tr), f"{what}: duplicate training observations")
        if complement:
            same(sorted(np.asarray(tr).tolist()), sorted(set(range(n)) - set(np.asarray(te).tolist())), f"{what}: fold {f} training set")


def check_strata(rep, strata, what):
    strata = np.ravel(strata)
    for v in np.unique(strata):
        cnt = [int(np.sum(strata[te] == v)) for _, te in rep]
        ensure(max(cnt) - min(cnt) <= 1, f"{what}: stratum {v} has {cnt} observations in the folds")
    sz = [len(te) for _, te in rep]
    ensure(max(sz) - min(sz) <= 1, f"{what}: fold sizes {sz}")


DRAW = common.with_flag(gen.specs(max_k=4), rs=gen.SEED, k=st.integers(2, 7), r=st.integers(1, 4), wrap=st.sampled_from(["", "apos", "qte"]),
                        again=st.booleans())


@sub("drawn", DRAW, quick=900)
def drawn(spec, cx):
    c = gen.Case(spec["c"])
    k, r = spec["k"], spec["r"]
    np.random.seed(spec["rs"] % 2**32)
    kw = {"n_folds": k, "n_rep": r}
    if isinstance(c.weights_arg, dict):
        c.weights_arg = None
    if spec["wrap"] == "apos" and c.kind == "apo":
        m = dml.DoubleMLAPOS(c.data(), Reg(), Cls(), treatment_levels=[0, 2], **kw)
    elif spec["wrap"] == "qte" and c.kind in ("pq", "lpq", "cvar"):
        m = dml.DoubleMLQTE(c.data(), Cls() if c.kind != "cvar" else Reg(), Cls(), quantiles=[0.4, 0.5],
                            score={"pq": "PQ", "lpq": "LPQ", "cvar": "CVaR"}[c.kind], **kw)
    else:
        m = c.make(setsmpls=False, **kw)
    if spec["again"]:
        before = m.smpls
        m.draw_sample_splitting()
        ensure(any(not np.array_equal(a[0][1], b[0][1]) for a, b in zip(before, m.smpls)), "drawing again gave the same splitting")
    smpls = m.smpls
    same(len(smpls), r, "number of repetitions")
    same((m.n_folds, m.n_rep), (k, r), "reported folds and repetitions")
    strata = c.strata
    if type(m).__name__ == "DoubleMLQTE":
        strata = c.D[:, 0]
    for i, rep in enumerate(smpls):
        check_partition(rep, c.n, k, f"{c.kind} drawn repetition {i}")
        check_strata(rep, strata if strata is not None else np.zeros(c.n), f"{c.kind} repetition {i}")
    for i in range(r):
        for j in range(i):
            ensure(any(not np.array_equal(a[1], b[1]) for a, b in zip(smpls[i], smpls[j])), f"repetitions {j} and {i} use the same splitting")
    if type(m).__name__ in ("DoubleMLAPOS", "DoubleMLQTE"):  # the parts use the composite's splitting
        parts = m.modellist if hasattr(m, "modellist") else list(m.modellist_0) + list(m.modellist_1)
        for p in parts:
            for a, b in zip(p.smpls, smpls):
                for (x1, y1), (x2, y2) in zip(a, b):
                    ensure(np.array_equal(x1, x2) and np.array_equal(y1, y2), "part uses another splitting than the composite")
    cx.label(c.kind + (":" + spec["wrap"] if type(m).__name__ in ("DoubleMLAPOS", "DoubleMLQTE") else ""), f"k={k}", f"r={r}")
    cx.nontrivial(c.n % k != 0)


@sub("drawn_any_strata", st.fixed_dictionaries({"s": gen.SEED, "k": st.integers(2, 8), "r": st.integers(1, 4), "lev": st.integers(0, 5),
                                                "n": st.integers(0, 60), "rs": gen.SEED}), quick=500)
def any_strata(spec, cx):
    """The resampling object itself, with arbitrary strata sizes (each at least as large as the number of folds)."""
    rng = np.random.default_rng(spec["s"])
    k = spec["k"]
    np.random.seed(spec["rs"] % 2**32)
    if spec["lev"]:
        sizes = rng.integers(k, k + 12, spec["lev"])
        strata = rng.permutation(np.repeat(np.arange(spec["lev"]) * 2, sizes))
        n = len(strata)
        rs = DoubleMLResampling(n_folds=k, n_rep=spec["r"], n_obs=n, stratify=strata)
    else:
        n = k + spec["n"]
        strata = np.zeros(n)
        rs = DoubleMLResampling(n_folds=k, n_rep=spec["r"], n_obs=n)
    smpls = rs.split_samples()
    same(len(smpls), spec["r"], "repetitions")
    for rep in smpls:
        check_partition(rep, n, k, "drawn")
        check_strata(rep, strata, "drawn")
    cx.nontrivial(n % k != 0 or spec["lev"] > 1)


def check_cluster(smpls, smc, C, k, n, what):
    q = C.shape[1]
    same(len(smpls), k**q, what + ": number of folds")
    check_partition(smpls, n, k**q, what, complement=False)
    seen = set()
    for (tr, te), (ctr, cte) in zip(smpls, smc):
        for j in range(q):
            u = set(np.unique(C[:, j]).tolist())
            a, b = set(np.asarray(ctr[j]).tolist()), set(np.asarray(cte[j]).tolist())
            ensure(not (a & b), f"{what}: cluster in training and test part")
            same(a | b, u, f"{what}: clusters of dimension {j}")
            ensure(not (set(C[tr, j].tolist()) & set(C[te, j].tolist())), f"{what}: a cluster of dimension {j} is shared by training and test rows")
        want_te = np.all([np.isin(C[:, j], np.asarray(cte[j])) for j in range(q)], axis=0)
        want_tr = np.all([np.isin(C[:, j], np.asarray(ctr[j])) for j in range(q)], axis=0)
        same(sorted(np.asarray(te).tolist()), np.where(want_te)[0].tolist(), f"{what}: test rows are not the whole test clusters")
        same(sorted(np.asarray(tr).tolist()), np.where(want_tr)[0].tolist(), f"{what}: training rows are not the whole training clusters")
        seen.add(tuple(tuple(sorted(np.asarray(x).tolist())) for x in cte))
    same(len(seen), k**q, what + ": repeated fold")
    for j in range(q):
        parts = {tuple(sorted(np.asarray(cte[j]).tolist())) for _, cte in smc}
        same(sorted(v for p in parts for v in p), sorted(np.unique(C[:, j]).tolist()), f"{what}: test clusters of dimension {j} form no partition")
        sz = [len(p) for p in parts]
        ensure(max(sz) - min(sz) <= 1, f"{what}: numbers of test clusters {sz}")


@sub("drawn_clusters", st.fixed_dictionaries({"s": gen.SEED, "k": st.integers(2, 4), "r": st.integers(1, 3), "q": st.integers(1, 2),
                                              "n": st.integers(30, 120), "rs": gen.SEED, "via": st.booleans()}), quick=500)
def drawn_clusters(spec, cx):
    rng = np.random.default_rng(spec["s"])
    k, q, n = spec["k"], spec["q"], spec["n"]
    C = np.column_stack([rng.integers(0, rng.integers(k, 4 * k), n) * 7 - 3 for _ in range(q)])
    for j in range(q):  # at least k clusters
        C[:k, j] = np.arange(k) * 7 - 3
    np.random.seed(spec["rs"] % 2**32)
    if spec["via"]:
        import pandas as pd

        df = pd.DataFrame(np.column_stack((rng.normal(size=(n, 4)), C)), columns=["y", "d", "x1", "x2"] + [f"c{j}" for j in range(q)])
        data = dml.DoubleMLClusterData(df, "y", "d", cluster_cols=[f"c{j}" for j in range(q)], x_cols=["x1", "x2"])
        m = dml.DoubleMLPLR(data, Reg(), Reg(), n_folds=k, n_rep=spec["r"])
        sm, smc = m.smpls, m.smpls_cluster
        same(m.n_folds, k**q, "reported number of folds")
    else:
        sm, smc = DoubleMLClusterResampling(n_folds=k, n_rep=spec["r"], n_obs=n, n_cluster_vars=q, cluster_vars=C).split_samples()
    same((len(sm), len(smc)), (spec["r"],) * 2, "repetitions")
    for i in range(spec["r"]):
        check_cluster(sm[i], smc[i], C, k, n, f"clusters rep {i}")
    cx.label(f"{q}-way", f"k={k}")
    cx.nontrivial()


def valid_split(rng, n, k, r):
    out = []
    for _ in range(r):
        p = rng.permutation(n)
        cuts = np.sort(rng.choice(np.arange(1, n), k - 1, replace=False))
        parts = np.split(p, cuts)
        rep = []
        for f in range(k):
            tr = np.concatenate([parts[i] for i in range(k) if i != f])
            if rng.random() < 0.3 and len(tr) > 4:
                tr = rng.permutation(tr)[: len(tr) - int(rng.integers(1, 3))]
            rep.append((tr, parts[f]))
        out.append(rep)
    return out


def dress(rng, smpls, form):
    """The same splitting in another accepted form."""
    conv = {"list": lambda v: [int(x) for x in v], "array": lambda v: np.array(v), "int32": lambda v: np.array(v, dtype="int32"),
            "tuple": lambda v: tuple(int(x) for x in v)}[form]
    return [[(conv(tr), conv(te)) for tr, te in rep] for rep in smpls]


MUT = ["test overlap", "test missing", "test out of range", "train out of range", "train negative", "train meets test", "train duplicate",
       "test duplicate", "float", "bool", "folds differ", "triple", "mixed", "dict", "array", "nested tuple", "strings", "all of one test"]


def damage(rng, S, mut, n):
    """One mutation that makes the splitting invalid."""
    S = [[(list(map(int, tr)), list(map(int, te))) for tr, te in rep] for rep in S]
    i = int(rng.integers(len(S)))
    k = len(S[i])
    f = int(rng.integers(k))
    tr, te = S[i][f]
    g = (f + 1) % k
    if mut == "test overlap":
        x = S[i][g][1][0]
        S[i][f] = ([t for t in tr if t != x], te + [x])
    elif mut == "test missing":
        if len(te) == 1:
            f, g = g, f
            tr, te = S[i][f]
        if len(te) == 1:
            return None
        S[i][f] = (tr, te[:-1])
    elif mut == "test out of range":
        S[i][f] = (tr, te[:-1] + [n + int(rng.integers(0, 3))])
    elif mut == "train out of range":
        S[i][f] = (tr + [n], te)
    elif mut == "train negative":
        S[i][f] = (tr[:-1] + [-1], te)
    elif mut == "train meets test":
        S[i][f] = (tr + [te[0]], te)
    elif mut == "train duplicate":
        S[i][f] = (tr + [tr[0]], te)
    elif mut == "test duplicate":
        S[i][f] = (tr, te + [te[0]])
    elif mut == "float":
        S[i][f] = ([float(x) for x in tr], te)
    elif mut == "bool":
        S[i][f] = (np.isin(np.arange(n), tr), te)
    elif mut == "strings":
        S[i][f] = ([str(x) for x in tr], te)
    elif mut == "folds differ":
        if len(S) < 2:
            return None
        a, b = S[i][-2], S[i][-1]
        if k < 3:
            return None
        merged = (sorted(set(range(n)) - set(a[1]) - set(b[1])), a[1] + b[1])
        S[i] = S[i][:-2] + [merged]
    elif mut == "triple":
        S[i][f] = (tr, te, te)
    elif mut == "mixed":
        return S + [S[0][0]]
    elif mut == "dict":
        return {j: rep for j, rep in enumerate(S)}
    elif mut == "array":
        return np.arange(n)
    elif mut == "nested tuple":
        return (S[0][0][0], S[0][0][1])
    elif mut == "all of one test":
        S[i] = [(list(range(n)), list(range(n)))] + S[i][1:]
    return S


SET = st.fixed_dictionaries({"s": gen.SEED, "n": st.integers(24, 60), "k": st.integers(2, 5), "r": st.integers(1, 3),
                             "form": st.sampled_from(["list", "array", "int32", "tuple"]), "mut": st.sampled_from(MUT),
                             "cls": st.sampled_from(["plr", "irm", "apos", "qte"])})


def model(spec, rng):
    import pandas as pd

    n = spec["n"]
    X = rng.normal(size=(n, 2))
    d = gen.binary(rng, X[:, 0])
    y = X @ [1.0, -0.5] + d + rng.normal(size=n)
    data = dml.DoubleMLData(pd.DataFrame({"y": y, "d": d, "x1": X[:, 0], "x2": X[:, 1]}), "y", "d")
    if spec["cls"] == "plr":
        return dml.DoubleMLPLR(data, Reg(), Cls(), n_folds=3, n_rep=2)
    if spec["cls"] == "irm":
        return dml.DoubleMLIRM(data, Reg(), Cls(), n_folds=3, n_rep=2)
    if spec["cls"] == "apos":
        return dml.DoubleMLAPOS(data, Reg(), Cls(), treatment_levels=[0, 1], n_folds=3, n_rep=2)
    return dml.DoubleMLQTE(data, Cls(), Cls(), quantiles=[0.5], n_folds=3, n_rep=2)


def eq_smpls(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(np.array_equal(p[0], q[0]) and np.array_equal(p[1], q[1]) for p, q in zip(x, y))
                                    for x, y in zip(a, b))


@sub("supplied_accepted", SET, quick=600)
def accepted(spec, cx):
    rng = np.random.default_rng(spec["s"])
    np.random.seed(spec["s"] % 2**32)
    m = model(spec, rng)
    n, k, r = spec["n"], spec["k"], spec["r"]
    S = valid_split(rng, n, k, r)
    D = dress(rng, S, spec["form"])
    keep = copy.deepcopy(D)
    arg = D[0] if r == 1 and spec["s"] % 2 else D
    try:
        m.set_sample_splitting(arg)
    except Exception as e:  # noqa: BLE001
        raise Fail(f"valid splitting refused: {type(e).__name__}: {e}")
    same((m.n_folds, m.n_rep), (k, r), "derived folds and repetitions")
    got = m.smpls
    for i in range(r):
        for (tr, te), (tr0, te0) in zip(got[i], S[i]):
            same((sorted(np.asarray(tr).tolist()), sorted(np.asarray(te).tolist())), (sorted(tr0.tolist()), sorted(te0.tolist())), "splitting used")
    for a, b in zip(keep, D):
        for (x, y), (p, q) in zip(a, b):
            ensure(np.array_equal(x, p) and np.array_equal(y, q), "supplied splitting was modified")
    cx.label(spec["cls"], spec["form"], f"r={r}")
    cx.nontrivial(n % k != 0)


@sub("supplied_one_fold", SET, quick=100)
def one_fold(spec, cx):
    """No splitting: train and test on all observations, given as a tuple or as a list with one tuple."""
    rng = np.random.default_rng(spec["s"])
    m = model(spec, rng)
    n = spec["n"]
    a, b = rng.permutation(n), rng.permutation(n)
    m.set_sample_splitting((a, b) if spec["k"] % 2 else [(list(map(int, a)), list(map(int, b)))])
    same((m.n_folds, m.n_rep), (1, 1), "folds and repetitions")
    same([sorted(x.tolist()) for x in m.smpls[0][0]], [list(range(n))] * 2, "splitting used")
    j = int(rng.integers(n))
    for bad in ((np.delete(np.arange(n), j), np.arange(n)), (np.arange(n), np.delete(np.arange(n), j)), (np.arange(n),),
                (np.arange(n), np.arange(n), np.arange(n))):
        raises((ValueError, TypeError), lambda: m.set_sample_splitting(bad), "tuple that is no full sample")
    cx.nontrivial()


@sub("supplied_rejected", SET, quick=900)
def rejected(spec, cx):
    rng = np.random.default_rng(spec["s"])
    np.random.seed(spec["s"] % 2**32)
    m = model(spec, rng)
    n, k, r = spec["n"], spec["k"], spec["r"]
    fitted = spec["s"] % 3 == 0
    if fitted:
        if spec["cls"] == "qte":
            fitted = False
        else:
            m.fit()
    before = copy.deepcopy(m.smpls)
    co = None if m.coef is None else np.array(m.coef)
    bad = damage(rng, valid_split(rng, n, k, r), spec["mut"], n)
    if bad is None:
        from ..core import Skip

        raise Skip("mutation not applicable")
    raises((ValueError, TypeError), lambda: m.set_sample_splitting(bad), f"damaged splitting ({spec['mut']})")
    ensure(eq_smpls(before, m.smpls), "a rejected splitting changed the model's splitting")
    same((m.n_folds, m.n_rep), (3, 2), "a rejected splitting changed the number of folds or repetitions")
    if fitted:
        close(m.coef, co, "a rejected splitting changed the estimates", 1e-12)
        m.fit()
        close(m.coef, co, "estimates after a rejected splitting and a refit", 1e-9)
    cx.label(spec["mut"], spec["cls"])
    cx.nontrivial()


CMUT = ["none given", "reps", "folds", "missing test cluster", "unknown cluster", "shared cluster", "missing train cluster", "rows"]


@sub("clusters_supplied", common.with_flag(gen.specs(kinds=("plr",), cluster=(1, 2), max_k=3, max_r=3), s=gen.SEED,
                                           mut=st.sampled_from([""] + CMUT)), quick=500)
def clusters_supplied(spec, cx):
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    np.random.seed(spec["s"] % 2**32)
    m = c.make(setsmpls=False, draw_sample_splitting=True)
    before, before_c = copy.deepcopy(m.smpls), copy.deepcopy(m.smpls_cluster)
    nf = m.n_folds
    S, SC = copy.deepcopy(c.smpls), [[([np.array(x) for x in tr], [np.array(x) for x in te]) for tr, te in rep] for rep in c.smpls_cluster]
    mut = spec["mut"]
    i = int(rng.integers(len(SC)))
    f = int(rng.integers(len(SC[i])))
    j = int(rng.integers(c.cl))
    if not mut:
        m.set_sample_splitting(S, SC)
        ensure(eq_smpls(m.smpls, [[(np.sort(a), np.sort(b)) for a, b in rep] for rep in c.smpls]), "splitting used")
        same((m.n_folds, m.n_rep), (c.k**c.cl, c.r), "folds and repetitions")
        for a, b in zip(m.smpls_cluster, c.smpls_cluster):
            for (p, q), (u, v) in zip(a, b):
                same([sorted(map(int, x)) for x in p + q], [sorted(map(int, x)) for x in list(u) + list(v)], "cluster splitting used")
        cx.nontrivial(c.r > 1)
        cx.label(f"accepted {c.cl}-way")
        return
    if mut == "none given":
        SC = None
    elif mut == "reps":
        SC = SC + [SC[0]]
    elif mut == "folds":
        SC[i] = SC[i][:-1]
    elif mut == "missing test cluster":
        SC[i][f][1][j] = SC[i][f][1][j][1:]
    elif mut == "missing train cluster":
        SC[i][f][0][j] = SC[i][f][0][j][1:]
    elif mut == "unknown cluster":
        SC[i][f][1][j] = np.concatenate((SC[i][f][1][j][1:], [-99]))
    elif mut == "shared cluster":
        SC[i][f][0][j] = np.concatenate((SC[i][f][0][j], SC[i][f][1][j][:1]))
    else:
        tr, te = S[i][f]
        S[i][f] = (np.concatenate((tr, te[:1])), te)
    raises((ValueError, TypeError), lambda: m.set_sample_splitting(S, SC), f"damaged cluster splitting ({mut}, rep {i}, fold {f})")
    ensure(eq_smpls(before, m.smpls), "a rejected cluster splitting changed the splitting")
    same((m.n_folds, m.n_rep), (nf, c.r), "a rejected cluster splitting changed folds or repetitions")
    for a, b in zip(m.smpls_cluster, before_c):
        for (p, q), (u, v) in zip(a, b):
            ensure(all(np.array_equal(x, y) for x, y in zip(p + q, u + v)), "a rejected cluster splitting changed the cluster splitting")
    cx.label(mut)
    cx.nontrivial()
