"""C20: data containers - stateful model-based test of variable roles."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import doubleml as dml

from .. import gen
from ..core import Fail, ensure, raises, same, sub

RULE = """A case is a table (real, 0/1, integer, boolean, missing and infinite columns; ordinary or shuffled index) and a history: a construction with
random roles (plain or clustered) followed by 1-12 role changes, valid and invalid (wrong types, unknown or duplicate columns, columns
that already have another role, columns with missing values). After every step all exposed arrays, names and indicators are compared
with a model that only knows the table and the current roles; refused steps must leave them as they were. Non-trivial: at least three
accepted changes, or an accepted change after a refused one."""
ASSUMPTIONS = ["whether a treatment column with missing values is refused before it becomes the active one is left open",
               "empty role lists are outside the domain"]

COLS = ["a", "b", "c", "e", "f", "g", "bin1", "bin2", "binf", "int3", "cl1", "cl2", "nan1", "inf1", "const0"]
LISTS = ("d", "x", "z", "c")
ATTR = {"y": "y_col", "d": "d_cols", "x": "x_cols", "z": "z_cols", "t": "t_col", "s": "s_col", "c": "cluster_cols"}


def table(s, weird):
    rng = np.random.default_rng(s)
    n = int(rng.integers(8, 14))
    df = pd.DataFrame({k: np.round(rng.normal(size=n), 3) for k in "abcefg"})
    df["bin1"] = np.resize([0, 1], n)
    df["bin2"] = rng.permutation(np.resize([0, 1, 1], n))
    df["binf"] = rng.permutation(np.resize([0.0, 1.0], n))
    df["int3"] = rng.permutation(np.resize([0, 1, 2], n))
    df["cl1"] = rng.permutation(np.resize([3, 5, 9], n))
    df["cl2"] = rng.permutation(np.resize([1.0, 2.0], n))
    x = rng.normal(size=n)
    x[2] = np.nan
    df["nan1"] = x
    x = rng.normal(size=n)
    x[1] = np.inf
    df["inf1"] = x
    df["const0"] = 0
    if weird == 1:
        df.index = rng.permutation(n) + 100
    elif weird == 2:
        df = df[[df.columns[i] for i in rng.permutation(df.shape[1])]]
    elif weird == 3:
        df.index = [f"r{i % 3}" for i in range(n)]  # duplicated row labels
    return df


class Model:
    """Roles only; everything else is derived from the table."""

    def __init__(self, df, **roles):
        self.df = df
        self.y = self.d = self.x = self.z = self.t = self.s = self.c = None
        self.other, self.force = True, True
        self.__dict__.update(roles)
        self.act = None

    def others(self, role):
        out = []
        for q in ATTR:
            v = getattr(self, q)
            if q != role and v is not None:
                out += v if isinstance(v, list) else [v]
        return out

    def default_x(self):
        out = self.others("x")
        return [k for k in self.df.columns if k not in out]

    def xd(self, act):
        return self.x + [k for k in self.d if k != act] if self.other else self.x

    def nan(self, cols):
        return bool(self.df[list(cols)].isna().any().any())

    def inf(self, cols):
        return bool(np.isinf(self.df[list(cols)].to_numpy(dtype=float)).any())

    def bad(self, cols):
        return self.nan(cols) or self.inf(cols)

    def ok(self, act):
        """None: either answer is fine."""
        roles = [(q, getattr(self, q)) for q in ATTR if getattr(self, q) is not None]
        allc = []
        for q, v in roles:
            v = v if isinstance(v, list) else [v]
            if any(not isinstance(k, str) or k not in self.df.columns for k in v) or len(set(v)) != len(v):
                return False
            allc += v
        if len(set(allc)) != len(allc):
            return False
        for q, v in roles:
            if q in ("y", "z", "t", "s", "c") and self.bad(v if isinstance(v, list) else [v]):
                return False
        if self.bad([act]):
            return False
        xs = self.xd(act)
        if self.force is True and self.bad(xs) or self.force == "allow-nan" and self.inf(xs):
            return False
        if self.bad(self.d):
            return None
        return True


def check(dat, m, cluster, what):
    df = m.df

    def arr(got, cols, nm):
        exp = df[cols].to_numpy()
        ensure(got is not None and np.shape(got) == exp.shape, f"{what}: shape of {nm}")
        ensure(np.array_equal(np.asarray(got, float), np.asarray(exp, float), equal_nan=True), f"{what}: {nm} is not column {cols} of the table")

    same(dat.y_col, m.y, f"{what}: y_col")
    same(list(dat.d_cols), m.d, f"{what}: d_cols")
    same(list(dat.x_cols), m.x, f"{what}: x_cols")
    same(None if dat.z_cols is None else list(dat.z_cols), m.z, f"{what}: z_cols")
    same(dat.t_col, m.t, f"{what}: t_col")
    same(dat.s_col, m.s, f"{what}: s_col")
    arr(dat.y, m.y, "y")
    arr(dat.d, m.act, "d")
    arr(dat.x, m.xd(m.act), "x")
    for nm, role in (("z", m.z), ("t", m.t), ("s", m.s)):
        if role is None:
            ensure(getattr(dat, nm) is None, f"{what}: {nm} without such a variable")
        else:
            arr(getattr(dat, nm), role, nm)
    if cluster:
        same(list(dat.cluster_cols), m.c, f"{what}: cluster_cols")
        arr(dat.cluster_vars, m.c, "cluster_vars")
        same(dat.n_cluster_vars, len(m.c), f"{what}: n_cluster_vars")
    same(dat.use_other_treat_as_covariate, m.other, f"{what}: use_other_treat_as_covariate")
    same(dat.force_all_x_finite, m.force, f"{what}: force_all_x_finite")
    same((dat.n_obs, dat.n_treat, dat.n_coefs, dat.n_instr), (len(df), len(m.d), len(m.d), 0 if m.z is None else len(m.z)), f"{what}: counts")
    isb = {k: bool(df[k].isin([0, 1]).all()) for k in m.d + [m.y]}
    bt = dat.binary_treats
    same(list(bt.index), m.d, f"{what}: treatments in binary_treats")
    same({k: bool(bt[k]) for k in m.d}, {k: isb[k] for k in m.d}, f"{what}: binary_treats")
    same(bool(dat.binary_outcome), isb[m.y], f"{what}: binary_outcome")
    txt = str(dat)
    ensure(f"Outcome variable: {m.y}\n" in txt and f"Treatment variable(s): {m.d}\n" in txt and f"Covariates: {m.x}\n" in txt
           and f"Instrument variable(s): {m.z}\n" in txt and f"No. Observations: {len(df)}\n" in txt, f"{what}: printed roles")


def build(df, m, cluster, d_str):
    kw = dict(x_cols=m.x, z_cols=m.z, t_col=m.t, s_col=m.s, use_other_treat_as_covariate=m.other, force_all_x_finite=m.force)
    d = m.d[0] if d_str and len(m.d) == 1 else list(m.d)
    if cluster:
        return dml.DoubleMLClusterData(df, m.y, d, list(m.c), **kw)
    return dml.DoubleMLData(df, m.y, d, **kw)


WRONG = {"y": [5, ["a"], None], "d": [5, ("a",), None], "x": [5, ("a", "b"), {"a"}], "z": [5, ("a",)], "t": [5, ["a"]], "s": [5, ["a"]], "c": [5, ("cl1",), None]}


def value(rng, role, m):
    """A random assignment for a role: mostly legal, sometimes not. Returns (value, hint)."""
    u = rng.random()
    if u < 0.08:
        return WRONG[role][int(rng.integers(len(WRONG[role])))], "type"
    free = [k for k in m.df.columns if k not in m.others(role)]
    pool = free if u < 0.72 else list(m.df.columns)
    if u < 0.45:
        pool = [k for k in pool if k not in ("nan1", "inf1")] or pool
    if u > 0.97:
        pool = pool + ["nope"]
    pool = pool or ["nope"]
    if role in ("y", "t", "s"):
        if role != "y" and rng.random() < 0.2:
            return None, "none"
        return str(rng.choice(pool)), "ok"
    if role in ("z", "x") and rng.random() < 0.2:
        return None, "none"
    k = int(rng.integers(1, min(4, len(pool)) + 1))
    v = [str(i) for i in rng.permutation(pool)[:k]]
    if rng.random() < 0.04:
        v = v + v[:1]
    if len(v) == 1 and rng.random() < 0.5:
        return v[0], "str"
    return v, "ok"


E = (ValueError, TypeError)


@sub("roles", st.fixed_dictionaries({"s": gen.SEED, "weird": st.integers(0, 3), "cl": st.booleans(), "n": st.integers(1, 12)}), quick=2500)
def roles(spec, cx):
    df = table(spec["s"], spec["weird"])
    keep = df.copy(deep=True)
    rng = np.random.default_rng(spec["s"] + 1)
    cluster = spec["cl"]
    m = None
    good = [k for k in df.columns if k not in ("nan1", "inf1")]
    for attempt in range(4):
        cols = [str(k) for k in rng.permutation(good if rng.random() < 0.8 else list(df.columns))]
        m = Model(df)
        m.y = cols.pop()
        m.d = [cols.pop() for _ in range(int(rng.integers(1, 4)))]
        m.z = [cols.pop() for _ in range(int(rng.integers(1, 3)))] if rng.random() < 0.5 else None
        m.t = cols.pop() if rng.random() < 0.3 else None
        m.s = cols.pop() if rng.random() < 0.3 else None
        m.c = [cols.pop() for _ in range(int(rng.integers(1, 3)))] if cluster else None
        m.other = bool(rng.random() < 0.6)
        m.force = [True, False, "allow-nan"][int(rng.integers(3))]
        u = rng.random()
        m.x = None if u < 0.4 else [cols.pop() for _ in range(int(rng.integers(1, 3)))]
        if u > 0.9:  # overlapping roles
            m.x = m.x + [m.y if rng.random() < 0.5 else m.d[0]]
        arg = copy.copy(m)
        if m.x is None:
            m.x = m.default_x()
        exp = m.ok(m.d[0]) if m.x else None
        if not m.x:
            continue
        try:
            dat = build(df, arg, cluster, rng.random() < 0.5)
        except E as e:
            if exp is True:
                raise Fail(f"a valid set of roles was refused: {e}")
            continue
        if exp is False:
            raise Fail(f"an invalid set of roles was accepted: {arg.__dict__}")
        break
    else:
        return cx.label("no container")
    m.act = m.d[0]
    check(dat, m, cluster, "after construction")
    acc = ref_then_acc = 0
    refused = False
    for i in range(spec["n"]):
        new = copy.copy(m)
        op = str(rng.choice(["y", "d", "x", "z", "t", "s", "act", "act", "other", "force"] + (["c"] if cluster else [])))
        hint = "ok"
        if op == "act":
            u = rng.random()
            v = str(rng.choice(m.d)) if u < 0.8 else (5 if u < 0.9 else str(rng.choice(list(df.columns))))
            exp = isinstance(v, str) and v in m.d and m.ok(v)
            new.act = v

            def do():
                dat.set_x_d(v)
        elif op == "other":
            v = [True, False, True, False, 1, None][int(rng.integers(6))]
            new.other, new.act = v, m.d[0]
            exp = isinstance(v, bool) and new.ok(m.d[0])

            def do():
                dat.use_other_treat_as_covariate = v
        elif op == "force":
            v = [True, False, "allow-nan", "nan", 1, None][int(rng.integers(6))]
            new.force, new.act = v, m.d[0]
            exp = (isinstance(v, bool) or v == "allow-nan") and new.ok(m.d[0])

            def do():
                dat.force_all_x_finite = v
        else:
            v, hint = value(rng, op, m)
            setattr(new, op, v)
            if hint == "type":
                exp = False
            else:
                if op in LISTS and isinstance(v, str):
                    setattr(new, op, [v])
                if op == "x" and v is None:
                    new.x = new.default_x()
                    if not new.x:
                        continue
                if op in ("d", "x"):
                    new.act = new.d[0]
                # changes of the other roles keep the active treatment and do not look at the covariates again
                exp = new.ok(new.act) if op in ("d", "x") or new.act in new.d else None

            def do():
                setattr(dat, ATTR[op], copy.copy(v))
        w = f"step {i}: {op} = {v!r}"
        try:
            do()
        except E as e:
            if exp is True:
                raise Fail(f"{w}: valid change refused: {e}")
            if op == "force" and (isinstance(v, bool) or v == "allow-nan") and dat.force_all_x_finite != m.force:
                # the refused value is kept (the current test suite demands it); everything else must be unchanged
                cx.known_finding("C20-force", "a refused change of force_all_x_finite keeps the refused value")
                new = copy.copy(m)
                new.force = v
                check(dat, new, cluster, w + " (refused)")
                break
            check(dat, m, cluster, w + " (refused)")
            refused = True
        else:
            if exp is False:
                raise Fail(f"{w}: invalid change accepted")
            m = new
            check(dat, m, cluster, w)
            acc += 1
            ref_then_acc += refused
    ensure(dat.data is df or dat.data.equals(keep), "the container uses another table")
    ensure(df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index) and (df.dtypes == keep.dtypes).all(), "the user's table was modified")
    cx.label("cluster" if cluster else "plain", f"weird {spec['weird']}")
    cx.nontrivial(acc >= 3 or ref_then_acc > 0)


def arr(rng, n, kind):
    if kind == 0:
        return np.round(rng.normal(size=n), 3)
    if kind == 1:
        return rng.permutation(np.resize([0, 1], n))
    if kind == 2:
        return rng.permutation(np.resize([0.0, 1.0], n))
    return rng.integers(-3, 9, n)


@sub("arrays", st.fixed_dictionaries({"s": gen.SEED, "cl": st.integers(0, 2), "z": st.integers(0, 3), "d": st.integers(1, 3), "x": st.integers(1, 4), "t": st.booleans(), "sel": st.booleans(),
                                      "bad": st.sampled_from([None, None, None, None, "len", "nan_y", "nan_x", "force", "inf_d"])}), quick=1000)
def arrays(spec, cx):
    rng = np.random.default_rng(spec["s"])
    n = int(rng.integers(6, 15))
    col = lambda: arr(rng, n, int(rng.integers(4)))  # noqa: E731
    X = np.column_stack([arr(rng, n, 0) for _ in range(spec["x"])])
    D = np.column_stack([col() for _ in range(spec["d"])])
    y = col()
    Z = np.column_stack([col() for _ in range(spec["z"])]) if spec["z"] else None
    t = arr(rng, n, 1 + int(rng.integers(2))) if spec["t"] else None
    s = col() if spec["sel"] else None
    C = np.column_stack([rng.integers(0, 4, n) for _ in range(spec["cl"])]) if spec["cl"] else None
    force = [True, False, "allow-nan"][int(rng.integers(3))]
    other = bool(rng.integers(2))
    if force is not True and spec["bad"] is None:
        X[0, 0] = np.nan
        if force is False:
            X[1, 0] = np.inf
    b = spec["bad"]
    # vectors may be given one-dimensional
    sq = lambda a: a[:, 0] if a is not None and a.ndim == 2 and a.shape[1] == 1 and rng.random() < 0.6 else a  # noqa: E731
    aX, aD, aZ, aC = sq(X), sq(D), sq(Z), sq(C)
    ay = y.reshape(-1, 1) if rng.random() < 0.2 else y
    keep = [None if a is None else np.array(a, copy=True) for a in (aX, ay, aD, aZ, t, s, aC)]
    kw = dict(use_other_treat_as_covariate=other, force_all_x_finite=force)

    def mk():
        if C is None:
            return dml.DoubleMLData.from_arrays(aX, ay, aD, aZ, t, s, **kw)
        return dml.DoubleMLClusterData.from_arrays(aX, ay, aD, aC, aZ, t, s, **kw)

    if b is not None:
        if b == "len":
            ay = ay[:-1]
        elif b == "nan_y":
            ay = np.array(ay, dtype=float)
            ay.flat[0] = np.nan
        elif b == "nan_x":
            kw["force_all_x_finite"] = True
            aX = np.array(aX, dtype=float)
            aX.flat[0] = np.nan
        elif b == "force":
            kw["force_all_x_finite"] = ["yes", 2, None][int(rng.integers(3))]
        elif b == "inf_d":
            aD = np.array(aD, dtype=float)
            aD.flat[0] = np.inf
        raises(E, mk, f"arrays with {b}")
        cx.label(b)
        return cx.nontrivial()
    dat = mk()
    xc = [f"X{i + 1}" for i in range(spec["x"])]
    dc = ["d"] if spec["d"] == 1 else [f"d{i + 1}" for i in range(spec["d"])]
    zc = None if Z is None else (["z"] if spec["z"] == 1 else [f"z{i + 1}" for i in range(spec["z"])])
    cc = None if C is None else (["cluster_var"] if spec["cl"] == 1 else [f"cluster_var{i + 1}" for i in range(spec["cl"])])
    cols = {}
    for names, A in ((xc, X), (dc, D), (zc, Z), (cc, C)):
        for i, k in enumerate(names or []):
            cols[k] = A[:, i]
    cols["y"] = y
    if t is not None:
        cols["t"] = t
    if s is not None:
        cols["s"] = s
    df = pd.DataFrame(cols)
    m = Model(df, y="y", d=dc, x=xc, z=zc, t="t" if spec["t"] else None, s="s" if spec["sel"] else None, c=cc, other=other, force=force)
    for k in dc:
        m.act = k
        dat.set_x_d(k)
        check(dat, m, C is not None, f"from arrays, treatment {k}")
    for a, q, nm in zip((aX, ay, aD, aZ, t, s, aC), keep, ("x", "y", "d", "z", "t", "s", "cluster_vars")):
        if a is not None:
            ensure(np.array_equal(a, q, equal_nan=True) and a.dtype == q.dtype, f"the user's array {nm} was modified")
    cx.label(f"cl={spec['cl']}", f"z={spec['z']}")
    cx.nontrivial(spec["d"] > 1 or Z is not None or C is not None or t is not None or s is not None)
