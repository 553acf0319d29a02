"""Case generator: one JSON spec -> data, learners, splitting and model of any model class of the package."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import doubleml as dml

from .learners import Cls, Reg

LINEAR_SENS = ("plr", "irm", "apo", "did", "didcs")
KINDS = ("plr", "pliv", "irm", "apo", "iivm", "ssm", "did", "didcs", "pq", "lpq", "cvar")
SEED = st.integers(0, 2**31 - 1)


def call_plr(y, d, l_hat, m_hat, g_hat, smpls):
    """User score: partialling out, written by the user."""
    return -np.multiply(d - m_hat, d - m_hat), np.multiply(d - m_hat, y - l_hat)


def call_plr_g(y, d, l_hat, m_hat, g_hat, smpls):
    return -np.multiply(d - m_hat, d), np.multiply(d - m_hat, y - g_hat)


def call_pliv(y, z, d, l_hat, m_hat, r_hat, g_hat, smpls):
    return -np.multiply(d - r_hat, z - m_hat), np.multiply(z - m_hat, y - l_hat)


def call_irm(y, d, g_hat0, g_hat1, m_hat, smpls):
    return np.full_like(m_hat, -1.0), g_hat1 - g_hat0 + d * (y - g_hat1) / m_hat - (1 - d) * (y - g_hat0) / (1 - m_hat)


def call_iivm(y, z, d, g_hat0, g_hat1, m_hat, r_hat0, r_hat1, smpls):
    b = g_hat1 - g_hat0 + z * (y - g_hat1) / m_hat - (1 - z) * (y - g_hat0) / (1 - m_hat)
    a = r_hat1 - r_hat0 + z * (d - r_hat1) / m_hat - (1 - z) * (d - r_hat0) / (1 - m_hat)
    return -a, b


def user_kde(u, weights):
    """User density estimate: triangular kernel with fixed bandwidth."""
    k = np.maximum(0.0, 1.0 - np.abs(np.ravel(u)) / 1.5) / 1.5
    return np.mean(weights * k) + 0.05


TRIM = st.sampled_from([0.01, 0.01, 0.05, 0.2, 0.35, 0.45, 1e-12])


def opts(kind):
    b = st.booleans()
    if kind == "plr":
        return st.fixed_dictionaries({
            "score": st.sampled_from(["partialling out", "IV-type", "callable", "callable_g"]),
            "nt": st.sampled_from([1, 1, 2, 3]), "mcls": b, "other": b})
    if kind == "pliv":
        return st.fixed_dictionaries({
            "var": st.sampled_from(["x", "x", "x_iv", "x_call", "xm", "xm3", "z", "zm", "xz", "xzm"]),
            "nt": st.sampled_from([1, 1, 2]), "other": b})
    if kind == "irm":
        return st.fixed_dictionaries({
            "score": st.sampled_from(["ATE", "ATTE", "ATE", "callable"]),
            "w": st.sampled_from(["none", "none", "arr", "dict", "bin"]), "norm": b, "trim": TRIM, "ybin": st.sampled_from([0, 0, 1])})
    if kind == "apo":
        return st.fixed_dictionaries({
            "lev": st.sampled_from([0, 1, 2]), "w": st.sampled_from(["none", "none", "arr", "dict"]), "norm": b, "trim": TRIM,
            "ybin": st.sampled_from([0, 0, 1])})
    if kind == "iivm":
        return st.fixed_dictionaries({
            "score": st.sampled_from(["LATE", "LATE", "callable"]), "at": b, "nv": b, "norm": b, "trim": TRIM,
            "ybin": st.sampled_from([0, 0, 1])})
    if kind == "ssm":
        return st.fixed_dictionaries({"score": st.sampled_from(["missing-at-random", "nonignorable"]), "norm": b, "trim": TRIM})
    if kind in ("did", "didcs"):
        return st.fixed_dictionaries({
            "score": st.sampled_from(["observational", "experimental"]), "isn": b, "trim": TRIM, "ybin": st.sampled_from([0, 0, 1])})
    if kind in ("pq", "lpq"):
        return st.fixed_dictionaries({
            "t": st.sampled_from([0, 1]), "q": st.sampled_from([0.2, 0.25, 0.4, 0.5, 0.6, 0.75, 0.8]), "norm": b,
            "trim": st.sampled_from([0.01, 0.05, 0.2, 0.35]), "kde": st.sampled_from([0, 0, 1])})
    if kind == "cvar":
        return st.fixed_dictionaries({
            "t": st.sampled_from([0, 1]), "q": st.sampled_from([0.2, 0.25, 0.4, 0.5, 0.6, 0.75, 0.8]), "norm": b,
            "trim": st.sampled_from([0.01, 0.05, 0.2, 0.35])})
    raise KeyError(kind)


def specs(kinds=KINDS, cluster=(0,), max_k=4, max_r=3, over=None, split=("strat", "strat", "thin", "shift")):
    """over: dict option -> strategy replacing the default."""

    def one(kind):
        o = opts(kind)
        if over:
            o = o.flatmap(lambda d: st.fixed_dictionaries({k: over[k] if k in over else st.just(v) for k, v in d.items()}))
        return st.fixed_dictionaries({
            "kind": st.just(kind), "n": st.integers(0, 20), "p": st.integers(1, 4), "seed": SEED,
            "k": st.integers(2, max_k), "r": st.integers(1, max_r), "o": o,
            "la": st.lists(st.sampled_from([0.05, 0.3, 1.0, 3.0]), min_size=6, max_size=6),
            "cl": st.sampled_from(list(cluster)), "split": st.sampled_from(list(split)),
        })

    return st.sampled_from(list(kinds)).flatmap(one)


# ------------------------------------------------------------------ data
def binary(rng, latent, strata=None, frac=None):
    """0/1 variable with a share near one half inside every stratum, increasing in latent plus noise."""
    n = latent.shape[0]
    out = np.zeros(n, dtype=int)
    strata = np.zeros(n) if strata is None else np.asarray(strata)
    for v in np.unique(strata):
        ii = np.where(strata == v)[0]
        f = rng.uniform(0.4, 0.6) if frac is None else frac
        s = latent[ii] + rng.normal(0, 1.2, len(ii))
        out[ii[np.argsort(-s)[: int(round(f * len(ii)))]]] = 1
    return out


def deal(rng, n, k, strata=None):
    """Random assignment of the observations to k test folds, balanced within strata."""
    fold = np.empty(n, dtype=int)
    strata = np.zeros(n) if strata is None else np.asarray(strata)
    c = 0
    for v in np.unique(strata):
        ii = rng.permutation(np.where(strata == v)[0])
        fold[ii] = (np.arange(len(ii)) + c) % k
        c += len(ii)
    return fold


def make_smpls(rng, n, k, r, strata=None, how="strat"):
    res = []
    for _ in range(r):
        fold = deal(rng, n, k, strata)
        one = []
        for f in range(k):
            test = np.where(fold == f)[0]
            train = np.where(fold != f)[0]
            if how == "thin":  # a supplied training set need not be the whole complement
                train = np.sort(rng.permutation(train)[: len(train) - 2])
            elif how == "shift":
                pass
            one.append((train, test))
        if how == "shift":  # folds listed in another order
            one = one[1:] + one[:1]
        res.append(one)
    return res


class Case:
    """Everything derived from the spec; arrays are the truth the reference uses."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = k = spec["kind"]
        self.o = o = spec["o"]
        self.k, self.r, self.p = spec["k"], spec["r"], spec["p"]
        rng = self.rng = np.random.default_rng(spec["seed"])
        self.cl = spec.get("cl", 0)
        base = {"ssm": 56, "didcs": 60, "lpq": 84, "apo": 54, "pq": 56, "cvar": 56, "iivm": 52}.get(k, 36)
        if self.k == 4:
            base = int(base * 1.3)
        if self.cl:
            self.k = min(self.k, 3)
            base = max(base, 48) if self.cl == 1 else (72 if k in ("plr", "pliv") else 110)
        n = self.n = base + spec["n"]
        p = self.p
        self.X = X = np.round(rng.normal(size=(n, p)), 3)
        e = rng.normal(size=n)
        lat = X @ rng.normal(size=p) * 0.7
        self.Z = self.T = self.S = None
        nt = o.get("nt", 1)
        self.weights_arg = None
        strata = None
        if k == "plr":
            if o["mcls"]:
                self.D = np.column_stack([binary(rng, lat * rng.choice([-1, 1])) for _ in range(nt)]).astype(float)
            else:
                self.D = np.column_stack([lat * rng.normal() + rng.normal(size=n) for _ in range(nt)])
            Y = self.D @ rng.normal(size=nt) + X @ rng.normal(size=p) + e
        elif k == "pliv":
            ni = {"xm": 2, "xm3": 3, "zm": 2, "xzm": 2}.get(o["var"], 1)
            self.Z = np.column_stack([0.3 * X @ rng.normal(size=p) + rng.normal(size=n) for _ in range(ni)])
            self.D = np.column_stack([self.Z @ (0.8 + rng.random(ni)) + 0.5 * lat + 0.5 * e + rng.normal(size=n) * 0.5 for _ in range(nt)])
            Y = self.D @ rng.normal(size=nt) + X @ rng.normal(size=p) + e
        elif k in ("irm", "did", "pq", "cvar"):
            d = binary(rng, lat)
            strata = d
            self.D = d[:, None].astype(float)
            Y = rng.normal() * 2 * d + X @ rng.normal(size=p) + e * (1 + 0.3 * d)
        elif k == "apo":
            d = np.digitize(lat + rng.normal(size=n), [-0.5, 0.5])
            order = np.argsort(lat + rng.normal(size=n))
            d = np.empty(n, dtype=int)
            d[order] = np.minimum(np.arange(n) * 3 // n, 2)
            strata = d
            self.D = d[:, None].astype(float)
            Y = rng.normal(size=3)[d] * 2 + X @ rng.normal(size=p) + e
        elif k in ("iivm", "lpq"):
            z = binary(rng, lat)
            d = binary(rng, lat + 1.0 * z, strata=z, frac=None)
            # instrument shifts treatment: flip some untreated with z=1
            f = rng.random(n)
            d = np.where((z == 1) & (d == 0) & (f < 0.35), 1, d)
            strata = d + 2 * z
            self.Z = z[:, None].astype(float)
            self.D = d[:, None].astype(float)
            Y = rng.normal() * 2 * d + X @ rng.normal(size=p) + e
        elif k == "ssm":
            d = binary(rng, lat)
            zz = rng.normal(size=n)
            s = binary(rng, lat + zz, strata=d, frac=0.6)
            strata = d + 2 * s
            self.D = d[:, None].astype(float)
            self.S = s.astype(float)
            if o["score"] == "nonignorable":
                self.Z = zz[:, None]
            Y = (rng.normal() * 2 * d + X @ rng.normal(size=p) + e) * s
        elif k == "didcs":
            d = binary(rng, lat)
            t = binary(rng, np.zeros(n), strata=d)
            strata = d + 2 * t
            self.D = d[:, None].astype(float)
            self.T = t.astype(float)
            Y = rng.normal() * d * t + d + t + X @ rng.normal(size=p) + e
        if o.get("ybin"):
            st_y = strata if strata is not None else None
            Y = binary(rng, Y, strata=st_y).astype(float)
        self.Y = Y
        self.strata = strata
        # clusters
        self.C = None
        if self.cl:
            if self.cl == 1:
                g = int(rng.integers(4 * self.k, 6 * self.k + 1))
                lab = rng.permutation(np.arange(n) % g)
                self.C = (lab * 3 + 100)[:, None]
                self._cluster_of(rng, lab)
            else:
                g1, g2 = int(rng.integers(3 * self.k, 5 * self.k)), int(rng.integers(3 * self.k, 5 * self.k))
                self.C = np.column_stack((rng.integers(0, g1, n) * 2 + 7, rng.integers(0, g2, n) + 50))
        self.xn = [f"X{i + 1}" for i in range(p)]
        self.dn = [f"d{i + 1}" if self.D.shape[1] > 1 else "d" for i in range(self.D.shape[1])]
        self.zn = [] if self.Z is None else [f"z{i + 1}" for i in range(self.Z.shape[1])]
        self.cn = [] if self.C is None else [f"c{i + 1}" for i in range(self.C.shape[1])]
        cols = {"y": self.Y}
        for j, nme in enumerate(self.dn):
            cols[nme] = self.D[:, j]
        for j, nme in enumerate(self.xn):
            cols[nme] = self.X[:, j]
        for j, nme in enumerate(self.zn):
            cols[nme] = self.Z[:, j]
        if self.T is not None:
            cols["t"] = self.T
        if self.S is not None:
            cols["s"] = self.S
        for j, nme in enumerate(self.cn):
            cols[nme] = self.C[:, j]
        self.df = pd.DataFrame(cols)
        if spec["seed"] % 3 == 1:  # whole numbers stored as integers
            for nme in self.df.columns:
                v = self.df[nme].to_numpy()
                if nme not in self.cn and v.dtype.kind == "f" and np.all(v == np.round(v)) and len(np.unique(v)) <= 12:
                    self.df[nme] = v.astype("int64" if spec["seed"] % 2 else "int32")
        # weights
        w = o.get("w", "none")
        if w == "arr":
            self.weights_arg = np.round(rng.random(n) + 0.1, 3)
        elif w == "dict":
            self.weights_arg = {"weights": np.round(rng.random(n) + 0.1, 3), "weights_bar": np.round(rng.random((n, self.r)) + 0.1, 3)}
        elif w == "bin":
            self.weights_arg = binary(rng, rng.normal(size=n), strata=strata).astype(float)
        if o.get("score") == "callable":
            self.weights_arg = None
        elif o.get("score") == "ATTE" and w in ("arr", "dict"):
            self.weights_arg = None
        # splitting
        if self.cl:
            self.smpls, self.smpls_cluster = self._cluster_smpls(rng)
        else:
            self.smpls = make_smpls(rng, n, self.k, self.r, strata, spec.get("split", "strat"))
            self.smpls_cluster = None
        self._learners()

    def _cluster_of(self, rng, lab):
        if self.strata is not None:  # shuffle labels within strata so that each cluster mixes strata
            out = lab.copy()
            c = 0
            for v in np.unique(self.strata):
                ii = rng.permutation(np.where(self.strata == v)[0])
                g = lab.max() + 1
                out[ii] = (np.arange(len(ii)) + c) % g
                c += len(ii)
            self.C = (out * 3 + 100)[:, None]

    def _cluster_smpls(self, rng):
        al, alc = [], []
        for _ in range(self.r):
            parts = []
            for c in range(self.C.shape[1]):
                u = np.unique(self.C[:, c])
                f = deal(rng, len(u), self.k)
                parts.append([(u[f != j], u[f == j]) for j in range(self.k)])
            sm, smc = [], []
            grid = [(a,) for a in range(self.k)] if self.C.shape[1] == 1 else [(a, b) for b in range(self.k) for a in range(self.k)]
            for g in grid:
                tr = np.ones(self.n, bool)
                te = np.ones(self.n, bool)
                ctr, cte = [], []
                for c, j in enumerate(g):
                    ctr.append(parts[c][j][0])
                    cte.append(parts[c][j][1])
                    tr &= np.isin(self.C[:, c], parts[c][j][0])
                    te &= np.isin(self.C[:, c], parts[c][j][1])
                sm.append((np.where(tr)[0], np.where(te)[0]))
                smc.append((ctr, cte))
            al.append(sm)
            alc.append(smc)
        return al, alc

    # -------------------------------------------------------------- learners
    def _learners(self):
        k, o, la = self.kind, self.o, self.spec["la"]
        R = lambda i: Reg(alpha=la[i], tag=str(i))  # noqa: E731
        C = lambda i: Cls(alpha=la[i], tag=str(i))  # noqa: E731
        G = lambda i: C(i) if o.get("ybin") else R(i)  # noqa: E731
        if k == "plr":
            self.learners = {"ml_l": R(0), "ml_m": C(1) if o["mcls"] else R(1)}
            if o["score"] in ("IV-type", "callable_g"):
                self.learners["ml_g"] = R(2)
        elif k == "pliv":
            v = o["var"]
            self.learners = {"ml_r": R(2)} if v in ("z", "zm") else {"ml_l": R(0), "ml_m": R(1), "ml_r": R(2)}
            if v == "x_iv":
                self.learners["ml_g"] = R(3)
        elif k in ("irm", "apo"):
            self.learners = {"ml_g": G(0), "ml_m": C(1)}
        elif k == "iivm":
            self.learners = {"ml_g": G(0), "ml_m": C(1), "ml_r": C(2)}
        elif k == "ssm":
            self.learners = {"ml_g": R(0), "ml_pi": C(1), "ml_m": C(2)}
        elif k in ("did", "didcs"):
            self.learners = {"ml_g": G(0)}
            if o["score"] == "observational":
                self.learners["ml_m"] = C(1)
        elif k in ("pq", "lpq"):
            self.learners = {"ml_g": C(0), "ml_m": C(1)}
        elif k == "cvar":
            self.learners = {"ml_g": R(0), "ml_m": C(1)}

    # -------------------------------------------------------------- package objects
    def data(self, df=None, **kw):
        df = self.df if df is None else df
        a = {"y_col": "y", "d_cols": list(self.dn) if len(self.dn) > 1 else self.dn[0], "x_cols": list(self.xn)}
        if self.zn:
            a["z_cols"] = list(self.zn) if len(self.zn) > 1 else self.zn[0]
        if self.T is not None:
            a["t_col"] = "t"
        if self.S is not None:
            a["s_col"] = "s"
        a["use_other_treat_as_covariate"] = bool(self.o.get("other", True))
        a.update(kw)
        if self.cl:
            return dml.DoubleMLClusterData(df, cluster_cols=list(self.cn) if len(self.cn) > 1 else self.cn[0], **a)
        return dml.DoubleMLData(df, **a)

    def score_arg(self):
        s = self.o.get("score")
        if self.kind == "plr":
            return {"callable": call_plr, "callable_g": call_plr_g}.get(s, s)
        if self.kind == "irm":
            return call_irm if s == "callable" else s
        if self.kind == "iivm":
            return call_iivm if s == "callable" else s
        if self.kind == "pliv":
            return {"x_iv": "IV-type", "x_call": call_pliv}.get(self.o["var"], "partialling out")
        return s

    def make(self, data=None, learners=None, setsmpls=True, **kw):
        """The fitted-ready model with the case's splitting."""
        o, k = self.o, self.kind
        L = dict(self.learners if learners is None else learners)
        data = self.data() if data is None else data
        a = {"n_folds": self.k, "n_rep": self.r, "draw_sample_splitting": not setsmpls}
        if k == "plr":
            a.update(score=self.score_arg())
            cls = dml.DoubleMLPLR
        elif k == "pliv":
            v = o["var"]
            a.update(score=self.score_arg())
            if v in ("z", "zm"):
                cls = dml.DoubleMLPLIV._partialZ
            elif v in ("xz", "xzm"):
                cls = dml.DoubleMLPLIV._partialXZ
            else:
                cls = dml.DoubleMLPLIV
        elif k == "irm":
            a.update(score=self.score_arg(), normalize_ipw=o["norm"], trimming_threshold=o["trim"], weights=self.weights_arg)
            cls = dml.DoubleMLIRM
        elif k == "apo":
            a.update(normalize_ipw=o["norm"], trimming_threshold=o["trim"], weights=self.weights_arg, treatment_level=o["lev"])
            cls = dml.DoubleMLAPO
        elif k == "iivm":
            a.update(score=self.score_arg(), normalize_ipw=o["norm"], trimming_threshold=o["trim"],
                     subgroups={"always_takers": o["at"], "never_takers": o["nv"]})
            cls = dml.DoubleMLIIVM
        elif k == "ssm":
            a.update(score=o["score"], normalize_ipw=o["norm"], trimming_threshold=o["trim"])
            cls = dml.DoubleMLSSM
        elif k in ("did", "didcs"):
            a.update(score=o["score"], in_sample_normalization=o["isn"], trimming_threshold=o["trim"])
            cls = dml.DoubleMLDID if k == "did" else dml.DoubleMLDIDCS
        elif k in ("pq", "lpq"):
            a.update(treatment=o["t"], quantile=o["q"], normalize_ipw=o["norm"], trimming_threshold=o["trim"],
                     kde=user_kde if o["kde"] else None)
            cls = dml.DoubleMLPQ if k == "pq" else dml.DoubleMLLPQ
        elif k == "cvar":
            a.update(treatment=o["t"], quantile=o["q"], normalize_ipw=o["norm"], trimming_threshold=o["trim"])
            cls = dml.DoubleMLCVAR
        a.update(kw)
        m = cls(data, **L, **a)
        if setsmpls:
            self.set_smpls(m)
        return m

    def set_smpls(self, m):
        if self.cl:
            m.set_sample_splitting(self.smpls, self.smpls_cluster)
        else:
            m.set_sample_splitting(self.smpls)
        return m

    # -------------------------------------------------------------- covariates seen for treatment j
    def x_for(self, j):
        if self.D.shape[1] > 1 and self.o.get("other", True):
            return np.column_stack((self.X, np.delete(self.D, j, axis=1)))
        return self.X

    @property
    def nt(self):
        return self.D.shape[1]

    def nuis_names(self):
        """Documented names of the nuisance functions (keys of predictions)."""
        k, o = self.kind, self.o
        if k == "plr":
            return list(self.learners)
        if k == "pliv":
            if o["var"] in ("xm", "xm3"):
                return ["ml_l", "ml_r"] + ["ml_m_" + z for z in self.zn]
            return list(self.learners)
        if k == "irm":
            return ["ml_g0", "ml_g1", "ml_m"]
        if k == "apo":
            return ["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"]
        if k == "iivm":
            return ["ml_g0", "ml_g1", "ml_m", "ml_r0", "ml_r1"]
        if k == "ssm":
            return ["ml_g_d0", "ml_g_d1", "ml_pi", "ml_m"]
        if k == "did":
            return ["ml_g0", "ml_g1"] + (["ml_m"] if o["score"] == "observational" else [])
        if k == "didcs":
            return ["ml_g_d0_t0", "ml_g_d0_t1", "ml_g_d1_t0", "ml_g_d1_t1"] + (["ml_m"] if o["score"] == "observational" else [])
        if k in ("pq", "cvar"):
            return ["ml_g", "ml_m"]
        return ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]

    def slot(self, nuis):
        """Learner slot of a nuisance function."""
        if self.kind == "lpq":
            return "ml_m" if nuis.startswith("ml_m") else "ml_g"
        for s in sorted(self.learners, key=len, reverse=True):
            if nuis.startswith(s):
                return s
        raise KeyError(nuis)
