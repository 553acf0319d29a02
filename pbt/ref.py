"""Reference model: nuisance predictions, scores, standard errors and inference written from the documentation."""
import numpy as np
from scipy import optimize
from scipy.stats import norm
from sklearn.base import clone
from sklearn.model_selection import StratifiedKFold, train_test_split
from statsmodels.nonparametric.kde import KDEUnivariate


class Nu:
    """One nuisance function for one treatment and repetition."""

    def __init__(self, preds, target=None, cond=None):
        self.preds = preds
        self.target = target  # full-length target, missing outside cond
        self.cond = cond


def _pred(m, X, proba):
    return m.predict_proba(X)[:, 1] if proba else m.predict(X)


def cf(est, X, target, smpls, cond=None, proba=False, params=None):
    """Out-of-fold predictions: one fresh learner per fold, trained on train & cond."""
    n = X.shape[0]
    out = np.full(n, np.nan)
    for f, (tr, te) in enumerate(smpls):
        m = clone(est)
        if params is not None:
            m.set_params(**(params[f] if isinstance(params, (list, tuple)) else params))
        rows = np.array([i for i in tr if cond is None or cond[i]], dtype=int)
        m.fit(X[rows], target[rows])
        out[te] = _pred(m, X[te], proba)
    return out


def clip(m, t):
    return np.minimum(np.maximum(m, t), 1.0 - t)


def normalized(m, d):
    """Propensity with which the inverse weights of treated and untreated each average to one."""
    w1 = np.mean(d / m)
    w0 = np.mean((1 - d) / (1 - m))
    return np.where(d == 1, m * w1, 1 - (1 - m) * w0)


# ------------------------------------------------------------------ quantile helpers
def bracket(score, start, bounds):
    width = bounds[1] - bounds[0]
    delta = 0.1
    differ, ab = False, bounds
    while not differ and delta <= 1.0:
        a = max(start - delta * width / 2, bounds[0])
        b = min(start + delta * width / 2, bounds[1])
        ab = (a, b)
        differ = np.sign(score(a)) != np.sign(score(b))
        delta += 0.1
    return differ, ab


def ipw_quantile(w, y, q, start, bounds):
    """Preliminary estimate: minimizer of |mean(w 1{y<=t}) - q|."""

    def sc(t):
        return np.mean(w * (y <= t) - q)

    _, ab = bracket(sc, start, bounds)
    return optimize.minimize_scalar(lambda t: abs(sc(t)), bracket=ab, method="brent").x


def zero_one(m, X):
    return m.predict_proba(X)[:, 1]


def nuisances(c, j, r, params=None, smpls=None, ext=None):
    """All nuisance predictions of case c, treatment j, repetition r. params: name -> None | dict | list per fold;
    ext: name -> supplied predictions that replace a learner."""
    params = params or {}
    ext = ext or {}
    smpls = c.smpls[r] if smpls is None else smpls
    o, k, L = c.o, c.kind, c.learners
    X, y, d = c.x_for(j), c.Y, c.D[:, j]
    n = c.n
    out = {}

    def add(name, slot, XX, target, cond=None, proba=False):
        pr = ext[name] if name in ext else cf(L[slot], XX, target, smpls, cond, proba, params.get(name))
        t = np.array(target, dtype=float)
        if cond is not None:
            t = np.where(cond, t, np.nan)
        out[name] = Nu(pr, t, cond)

    if k == "plr":
        add("ml_l", "ml_l", X, y)
        add("ml_m", "ml_m", X, d, proba=bool(o["mcls"]))
        if "ml_g" in L:
            v = d - out["ml_m"].preds
            th = np.mean(v * (y - out["ml_l"].preds)) / np.mean(v * v)
            add("ml_g", "ml_g", X, y - th * d)
    elif k == "pliv":
        v = o["var"]
        Z = c.Z
        if v in ("z", "zm"):
            add("ml_r", "ml_r", np.column_stack((X, Z)), d)
        elif v in ("xz", "xzm"):
            XZ = np.column_stack((X, Z))
            add("ml_l", "ml_l", X, y)
            add("ml_m", "ml_m", XZ, d)
            # r regresses the training predictions of m on x, fold by fold
            pr = np.full(n, np.nan)
            for f, (tr, te) in enumerate(smpls):
                def prm(nm):
                    q = params.get(nm)
                    return (q[f] if isinstance(q, (list, tuple)) else q) or {}
                m = clone(L["ml_m"]).set_params(**prm("ml_m")).fit(XZ[tr], d[tr])
                rr = clone(L["ml_r"]).set_params(**prm("ml_r")).fit(X[tr], m.predict(XZ[tr]))
                pr[te] = rr.predict(X[te])
            out["ml_r"] = Nu(pr, None, None)
        else:
            add("ml_l", "ml_l", X, y)
            if Z.shape[1] == 1:
                add("ml_m", "ml_m", X, Z[:, 0])
            else:
                for i, z in enumerate(c.zn):
                    add("ml_m_" + z, "ml_m", X, Z[:, i])
            add("ml_r", "ml_r", X, d)
            if "ml_g" in L:
                vv = Z[:, 0] - out["ml_m"].preds
                th = np.mean(vv * (y - out["ml_l"].preds)) / np.mean((d - out["ml_r"].preds) * vv)
                add("ml_g", "ml_g", X, y - th * d)
    elif k == "irm":
        pb = bool(o["ybin"])
        add("ml_g0", "ml_g", X, y, d == 0, pb)
        add("ml_g1", "ml_g", X, y, d == 1, pb)
        add("ml_m", "ml_m", X, d, None, True)
    elif k == "apo":
        pb = bool(o["ybin"])
        a = (d == o["lev"]).astype(float)
        add("ml_g_d_lvl1", "ml_g", X, y, a == 1, pb)
        add("ml_g_d_lvl0", "ml_g", np.column_stack((d, X)), y, a == 0, pb)
        add("ml_m", "ml_m", X, a, None, True)
    elif k == "iivm":
        z = c.Z[:, 0]
        pb = bool(o["ybin"])
        add("ml_g0", "ml_g", X, y, z == 0, pb)
        add("ml_g1", "ml_g", X, y, z == 1, pb)
        add("ml_m", "ml_m", X, z, None, True)
        if o["at"] or "ml_r0" in ext:
            add("ml_r0", "ml_r", X, d, z == 0, True)
        else:
            out["ml_r0"] = Nu(np.zeros(n), None, z == 0)
        if o["nv"] or "ml_r1" in ext:
            add("ml_r1", "ml_r", X, d, z == 1, True)
        else:
            out["ml_r1"] = Nu(np.ones(n), None, z == 1)
    elif k == "did":
        pb = bool(o["ybin"])
        add("ml_g0", "ml_g", X, y, d == 0, pb)
        add("ml_g1", "ml_g", X, y, d == 1, pb)
        if o["score"] == "observational":
            add("ml_m", "ml_m", X, d, None, True)
    elif k == "didcs":
        pb = bool(o["ybin"])
        t = c.T
        for dd in (0, 1):
            for tt in (0, 1):
                add(f"ml_g_d{dd}_t{tt}", "ml_g", X, y, (d == dd) & (t == tt), pb)
        if o["score"] == "observational":
            add("ml_m", "ml_m", X, d, None, True)
    elif k == "ssm":
        s = c.S
        if o["score"] == "missing-at-random":
            add("ml_pi", "ml_pi", np.column_stack((X, d)), s, None, True)
            add("ml_m", "ml_m", X, d, None, True)
            add("ml_g_d1", "ml_g", X, y, (d == 1) & (s == 1))
            add("ml_g_d0", "ml_g", X, y, (d == 0) & (s == 1))
        else:
            out.update(_ssm_nonignorable(c, X, y, d, s, smpls, params))
    elif k in ("pq", "cvar"):
        out.update(_pq_cvar(c, X, y, d, smpls, params, ext))
    elif k == "lpq":
        out.update(_lpq(c, X, y, d, smpls, params))
    return out


def _fp(params, name, f):
    q = params.get(name)
    return (q[f] if isinstance(q, (list, tuple)) else q) or {}


def _ssm_nonignorable(c, X, y, d, s, smpls, params):
    L, n = c.learners, c.n
    P = {k: np.full(n, np.nan) for k in ("ml_pi", "ml_m", "ml_g_d0", "ml_g_d1")}
    strata = d + 2 * s
    dx = np.column_stack((X, d, c.Z[:, 0]))
    for f, (tr, te) in enumerate(smpls):
        t1, t2 = train_test_split(tr, test_size=0.5, random_state=42, stratify=strata[tr])
        mk = lambda slot, name: clone(L[slot]).set_params(**_fp(params, name, f))  # noqa: E731
        pi = mk("ml_pi", "ml_pi").fit(dx[t1], s[t1])
        ph = pi.predict_proba(dx)[:, 1]
        P["ml_pi"][te] = ph[te]
        xp = np.column_stack((X, ph))
        P["ml_m"][te] = mk("ml_m", "ml_m").fit(xp[t2], d[t2]).predict_proba(xp[te])[:, 1]
        for v in (0, 1):
            rows = t2[(d[t2] == v) & (s[t2] == 1)]
            rows = np.sort(rows)
            P[f"ml_g_d{v}"][te] = mk("ml_g", f"ml_g_d{v}").fit(xp[rows], y[rows]).predict(xp[te])
    return {k: Nu(v, {"ml_pi": s, "ml_m": d}.get(k, np.where((d == int(k[-1]) if k[-1].isdigit() else True) & (s == 1), y, np.nan)))
            for k, v in P.items()}


def _pq_cvar(c, X, y, d, smpls, params, ext):
    o, L, n = c.o, c.learners, c.n
    q, tv = o["q"], o["t"]
    G, M, T = np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan)
    bounds = (y.min(), y.max())
    yt = y[d == tv]
    start = np.quantile(yt, q) if c.kind == "pq" else np.mean(yt[yt >= np.quantile(yt, q)])
    prelim = []
    for f, (tr, te) in enumerate(smpls):
        t1, t2 = train_test_split(tr, test_size=0.5, random_state=42, stratify=d[tr])
        mk = lambda name: clone(L[name]).set_params(**_fp(params, name, f))  # noqa: E731
        inner = list(StratifiedKFold(n_splits=len(smpls)).split(t1, d[t1]))
        mp = np.full(len(t1), np.nan)
        for a, b in inner:
            mp[b] = ext["ml_m"][t1[b]] if "ml_m" in ext else mk("ml_m").fit(X[t1[a]], d[t1[a]]).predict_proba(X[t1[b]])[:, 1]
        mp = clip(mp, o["trim"])
        if o["norm"]:
            mp = normalized(mp, d[t1])
        if tv == 0:
            mp = 1 - mp
        th = ipw_quantile((d[t1] == tv) / mp, y[t1], q, start, bounds)
        prelim.append(th)
        rows = t2[d[t2] == tv]
        if c.kind == "pq":
            tgt = (y <= th).astype(float)
            G[te] = mk("ml_g").fit(X[rows], tgt[rows]).predict_proba(X[te])[:, 1]
        else:
            tgt = np.maximum(th, (y - q * th) / (1 - q))
            G[te] = mk("ml_g").fit(X[rows], tgt[rows]).predict(X[te])
        T[te] = tgt[te]
        M[te] = mk("ml_m").fit(X[tr], d[tr]).predict_proba(X[te])[:, 1]
    G, M = ext.get("ml_g", G), ext.get("ml_m", M)
    g = Nu(G, np.where(d == tv, T, np.nan), d == tv)
    g.prelim = np.array(prelim)
    return {"ml_g": g, "ml_m": Nu(M, d.astype(float), None)}


def _lpq(c, X, y, d, smpls, params):
    o, L, n = c.o, c.learners, c.n
    q, tv = o["q"], o["t"]
    z = c.Z[:, 0]
    names = ("ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1")
    P = {k: np.full(n, np.nan) for k in names}
    T = {k: np.full(n, np.nan) for k in names}
    strata = d + 2 * z
    bounds = (y.min(), y.max())
    start = np.quantile(y[d == tv], q)
    sign = 2 * tv - 1.0
    prelim = []
    for f, (tr, te) in enumerate(smpls):
        t1, t2 = train_test_split(tr, test_size=0.5, random_state=42, stratify=strata[tr])
        mk = lambda name: clone(L["ml_m" if name.startswith("ml_m") else "ml_g"]).set_params(**_fp(params, name, f))  # noqa: E731
        mz = np.full(len(t1), np.nan)
        for a, b in StratifiedKFold(n_splits=len(smpls)).split(t1, strata[t1]):
            mz[b] = mk("ml_m_z").fit(X[t1[a]], z[t1[a]]).predict_proba(X[t1[b]])[:, 1]
        mz = clip(mz, o["trim"])
        if o["norm"]:
            mz = normalized(mz, z[t1])
        r0 = t1[z[t1] == 0]
        r1 = t1[z[t1] == 1]
        md0 = mk("ml_m_d_z0").fit(X[r0], d[r0]).predict_proba(X[t1])[:, 1]
        md1 = mk("ml_m_d_z1").fit(X[r1], d[r1]).predict_proba(X[t1])[:, 1]
        z1, d1 = z[t1], d[t1]
        cp = np.mean(md1 - md0 + z1 / mz * (d1 - md1) - (1 - z1) / (1 - mz) * (d1 - md0))
        w = sign * (z1 / mz - (1 - z1) / (1 - mz)) / cp
        th = ipw_quantile(w * (d1 == tv), y[t1], q, start, bounds)
        prelim.append(th)
        for v in (0, 1):
            rows = t2[z[t2] == v]
            u = ((d == tv) & (y <= th)).astype(float)
            P[f"ml_g_du_z{v}"][te] = mk(f"ml_g_du_z{v}").fit(X[rows], u[rows]).predict_proba(X[te])[:, 1]
            T[f"ml_g_du_z{v}"][te] = np.where(z[te] == v, u[te], np.nan)
            rows = tr[z[tr] == v]
            P[f"ml_m_d_z{v}"][te] = mk(f"ml_m_d_z{v}").fit(X[rows], d[rows]).predict_proba(X[te])[:, 1]
            T[f"ml_m_d_z{v}"][te] = np.where(z[te] == v, d[te], np.nan)
        P["ml_m_z"][te] = mk("ml_m_z").fit(X[tr], z[tr]).predict_proba(X[te])[:, 1]
        T["ml_m_z"][te] = z[te]
    out = {k: Nu(P[k], T[k]) for k in names}
    out["ml_g_du_z0"].prelim = np.array(prelim)
    return out


# ------------------------------------------------------------------ stored form of the propensity
def stored_pred(c, name, raw):
    """What the model documents to store: bounded propensities (LPQ stores the raw ones)."""
    if name == "ml_m" and c.kind in ("irm", "apo", "iivm", "ssm", "did", "didcs", "pq", "cvar"):
        return clip(raw, c.o["trim"])
    return raw


# ------------------------------------------------------------------ scores
def weights_of(c, r, m):
    w = c.weights_arg
    if c.kind == "irm" and c.o["score"] == "ATTE":
        base = np.ones(c.n) if w is None else w
        d = c.D[:, 0]
        pr = np.mean(base * d)
        return base * d / pr, base * m / pr
    if w is None:
        return np.ones(c.n), np.ones(c.n)
    if isinstance(w, dict):
        return w["weights"], w["weights_bar"][:, r]
    return w, w


def score(c, j, r, P, smpls=None):
    """(psi_a, psi_b) of the documented score at nuisance predictions P (name -> array, propensities already bounded)."""
    o, k = c.o, c.kind
    y, d = c.Y, c.D[:, j]
    smpls = c.smpls[r] if smpls is None else smpls
    n = c.n
    if k == "plr":
        v = d - P["ml_m"]
        if o["score"] in ("IV-type", "callable_g"):
            return -v * d, v * (y - P["ml_g"])
        return -v * v, v * (y - P["ml_l"])
    if k == "pliv":
        v = o["var"]
        if v in ("z", "zm"):
            return -P["ml_r"] * d, P["ml_r"] * y
        if v in ("xz", "xzm"):
            inst = P["ml_m"] - P["ml_r"]
            return -inst * (d - P["ml_r"]), inst * (y - P["ml_l"])
        if c.Z.shape[1] > 1:
            V = np.column_stack([c.Z[:, i] - P["ml_m_" + z] for i, z in enumerate(c.zn)])
            w = d - P["ml_r"]
            A = np.column_stack((np.ones(n), V))
            inst = A @ np.linalg.lstsq(A, w, rcond=None)[0]
            return -inst * w, inst * (y - P["ml_l"])
        vv = c.Z[:, 0] - P["ml_m"]
        if v == "x_iv":
            return -vv * d, vv * (y - P["ml_g"])
        return -vv * (d - P["ml_r"]), vv * (y - P["ml_l"])
    if k == "irm":
        m = normalized(P["ml_m"], d) if o["norm"] else P["ml_m"]
        g0, g1 = P["ml_g0"], P["ml_g1"]
        dr = d * (y - g1) / m - (1 - d) * (y - g0) / (1 - m)
        if o["score"] == "callable":
            return -np.ones(n), g1 - g0 + dr
        w, wb = weights_of(c, r, m)
        return -w / np.mean(w), w * (g1 - g0) + wb * dr
    if k == "apo":
        a = (d == o["lev"]).astype(float)
        m = normalized(P["ml_m"], a) if o["norm"] else P["ml_m"]
        w, wb = weights_of(c, r, m)
        g = P["ml_g_d_lvl1"]
        return -w / np.mean(w), w * g + wb * a * (y - g) / m
    if k == "iivm":
        z = c.Z[:, 0]
        # the package normalizes with the treatment (recorded finding of C08); the documented variable is the instrument
        nv = d if getattr(c, "iivm_norm_by_d", True) else z
        m = normalized(P["ml_m"], nv) if o["norm"] else P["ml_m"]
        b = P["ml_g1"] - P["ml_g0"] + z * (y - P["ml_g1"]) / m - (1 - z) * (y - P["ml_g0"]) / (1 - m)
        a = P["ml_r1"] - P["ml_r0"] + z * (d - P["ml_r1"]) / m - (1 - z) * (d - P["ml_r0"]) / (1 - m)
        return -a, b
    if k == "ssm":
        s, m, pi = c.S, P["ml_m"], P["ml_pi"]
        w1 = d * s / (m * pi)
        w0 = (1 - d) * s / ((1 - m) * pi)
        if o["norm"]:  # weights sum to the size of the arm
            w1 = w1 * np.sum(d) / np.sum(w1)
            w0 = w0 * np.sum(1 - d) / np.sum(w0)
        b = P["ml_g_d1"] + w1 * (y - P["ml_g_d1"]) - P["ml_g_d0"] - w0 * (y - P["ml_g_d0"])
        return -np.ones(n), b
    ph, lh = np.full(n, np.nan), np.full(n, np.nan)
    for tr, te in smpls:
        ph[te] = np.mean(d[tr])
        if c.T is not None:
            lh[te] = np.mean(c.T[tr])
    if k == "did":
        g0, g1 = P["ml_g0"], P["ml_g1"]
        p = np.mean(d) if o["isn"] else ph
        if o["score"] == "observational":
            odds = P["ml_m"] / (1 - P["ml_m"])
            if o["isn"]:
                w = d / p - (1 - d) * odds / np.mean((1 - d) * odds)
            else:
                w = d / p - (1 - d) * odds / p
            return -d / p, w * (y - g0)
        w = d / p - (1 - d) / (1 - p)
        b = (d / p - 1) * g0 + (1 - d / p) * g1 + w * (y - g0)
        return -np.ones(n), b
    if k == "didcs":
        t = c.T
        cells = {(1, 1): 1.0, (1, 0): -1.0, (0, 1): -1.0, (0, 0): 1.0}
        isn = o["isn"]
        p = np.mean(d) if isn else ph
        obs = o["score"] == "observational"
        odds = P["ml_m"] / (1 - P["ml_m"]) if obs else np.ones(n)
        lead = d / p if obs else np.ones(n)
        b = np.zeros(n)
        for (a, u), sg in cells.items():
            ind = ((d == a) & (t == u)).astype(float)
            raw = ind * (odds if (a == 0) else 1.0)
            if isn:
                w = raw / np.mean(raw)
            elif obs:
                w = raw / (p * (lh if u else 1 - lh))
            else:
                w = raw / ((p if a else 1 - p) * (lh if u else 1 - lh))
            g = P[f"ml_g_d{a}_t{u}"]
            b = b + sg * (lead * g + w * (y - g))
        return -lead, b
    raise KeyError(k)


def q_elements(c, P):
    """Quantile models: score function, derivative and bounds at given stored predictions."""
    o, k = c.o, c.kind
    y, d = c.Y, c.D[:, 0]
    tv, q = o["t"], o["q"]
    ind = (d == tv).astype(float)
    if k == "pq":
        m = P["ml_m"]
        m = normalized(m, d) if o["norm"] else m
        m = m if tv == 1 else 1 - m
        w = ind / m
        return (lambda th: w * ((y <= th) - P["ml_g"]) + P["ml_g"] - q), w
    z = c.Z[:, 0]
    mz = clip(P["ml_m_z"], o["trim"])
    mz = normalized(mz, z) if o["norm"] else mz
    m0, m1 = P["ml_m_d_z0"], P["ml_m_d_z1"]
    cp = np.mean(m1 - m0 + z / mz * (d - m1) - (1 - z) / (1 - mz) * (d - m0))
    sg = 1.0 if tv == 1 else -1.0
    g0, g1 = P["ml_g_du_z0"], P["ml_g_du_z1"]

    def sc(th):
        u = ind * (y <= th)
        return sg * (g1 - g0 + z / mz * (u - g1) - (1 - z) / (1 - mz) * (u - g0)) / cp - q

    return sc, sg * (z / mz - (1 - z) / (1 - mz)) * ind / cp


def kde(c, u, w):
    from . import gen

    if c.o.get("kde"):
        return gen.user_kde(u, w)
    e = KDEUnivariate(np.ravel(u).reshape(-1, 1))
    e.fit(kernel="gau", bw="silverman", weights=w, fft=False)
    return float(np.ravel(e.evaluate(0))[0])


def cvar_score(c, P, pq_est):
    o = c.o
    y, d = c.Y, c.D[:, 0]
    m = normalized(P["ml_m"], d) if o["norm"] else P["ml_m"]
    m = m if o["t"] == 1 else 1 - m
    tgt = np.maximum(pq_est, (y - o["q"] * pq_est) / (1 - o["q"]))
    return -np.ones(c.n), (d == o["t"]) * (tgt - P["ml_g"]) / m + P["ml_g"]


# ------------------------------------------------------------------ estimation
def solve(a, b):
    return -np.mean(b) / np.mean(a)


def sandwich(psi, deriv):
    n = len(psi)
    return np.sqrt(np.mean(psi**2) / np.mean(deriv) ** 2 / n)


def solve_cluster(a, b, smpls, smc):
    A = B = 0.0
    for (_, te), (_, cte) in zip(smpls, smc):
        w = 1.0
        for ids in cte:
            w /= len(ids)
        A += w * np.sum(a[te])
        B += w * np.sum(b[te])
    return -B / A


def sandwich_cluster(psi, deriv, C, smpls, smc, k):
    """k: folds per cluster dimension. Returns (se, number of clusters used for scaling)."""
    gam = jac = 0.0
    if C.shape[1] == 1:
        for (_, te), (_, cte) in zip(smpls, smc):
            ids = cte[0]
            gam += sum(np.sum(psi[C[:, 0] == v]) ** 2 for v in ids) / len(ids)
            jac += np.sum(deriv[te]) / len(ids)
        G, J = gam / k, jac / k
        N = len(np.unique(C[:, 0]))
    else:
        for (_, te), (_, cte) in zip(smpls, smc):
            I, Jl = cte
            inI, inJ = np.isin(C[:, 0], I), np.isin(C[:, 1], Jl)
            s = sum(np.sum(psi[(C[:, 0] == v) & inJ]) ** 2 for v in I) + sum(np.sum(psi[(C[:, 1] == v) & inI]) ** 2 for v in Jl)
            gam += min(len(I), len(Jl)) / (len(I) * len(Jl)) ** 2 * s
            jac += np.sum(deriv[te]) / (len(I) * len(Jl))
        G, J = gam / k**2, jac / k**2
        N = min(len(np.unique(C[:, 0])), len(np.unique(C[:, 1])))
    return np.sqrt(G / (J**2) / N), N


def aggregate(all_coef, all_se, scale):
    """Median aggregation over repetitions; arrays (n_coef, n_rep); scale scalar or (n_coef,) or (n_coef, n_rep)."""
    c = np.array([np.median(row) for row in all_coef])
    sc = np.broadcast_to(np.asarray(scale, dtype=float).reshape(-1, 1) if np.ndim(scale) == 1 else scale, all_coef.shape)
    se = np.array([np.sqrt(np.median(all_se[i] ** 2 + (all_coef[i] - c[i]) ** 2 / sc[i])) for i in range(len(c))])
    return c, se


def pvals(c, se):
    return 2 * norm.cdf(-np.abs(c / se))


# ------------------------------------------------------------------ sensitivity ingredients
def sens(c, j, r, P, theta):
    """(sigma2, nu2, psi_sigma2, psi_nu2, riesz) as documented."""
    o, k = c.o, c.kind
    y, d = c.Y, c.D[:, j]
    n = c.n
    one = np.ones(n)
    if k == "plr":
        res = y - P["ml_g"] - theta * d if o["score"] == "IV-type" else y - P["ml_l"] - theta * (d - P["ml_m"])
        v = d - P["ml_m"]
        nu2 = 1 / np.mean(v**2)
        s2e = res**2
        return np.mean(s2e), nu2, s2e - np.mean(s2e), nu2 - v**2 * nu2**2, v * nu2
    if k == "irm":
        m = normalized(P["ml_m"], d) if o["norm"] else P["ml_m"]
        w, wb = weights_of(c, r, m)
        res = y - np.where(d == 1, P["ml_g1"], P["ml_g0"])
        ma = w * wb * (1 / m + 1 / (1 - m))
        rr = wb * (d / m - (1 - d) / (1 - m))
    elif k == "apo":
        a = (d == o["lev"]).astype(float)
        m = normalized(P["ml_m"], a) if o["norm"] else P["ml_m"]
        w, wb = weights_of(c, r, m)
        res = y - np.where(a == 1, P["ml_g_d_lvl1"], P["ml_g_d_lvl0"])
        ma = w * wb / m
        rr = wb * a / m
    elif k == "did":
        p = np.mean(d)
        res = y - np.where(d == 1, P["ml_g1"], P["ml_g0"])
        if o["score"] == "observational":
            odds = P["ml_m"] / (1 - P["ml_m"])
            q = np.mean((1 - d) * odds) if o["isn"] else p
            ma = d / p * (1 / p + odds / q)
            rr = d / p - (1 - d) * odds / q
        else:
            ma = one / p + one / (1 - p)
            rr = d / p - (1 - d) / (1 - p)
    elif k == "didcs":
        t = c.T
        p, lam = np.mean(d), np.mean(t)
        g = np.zeros(n)
        for a in (0, 1):
            for u in (0, 1):
                g = np.where((d == a) & (t == u), P[f"ml_g_d{a}_t{u}"], g)
        res = y - g
        ob = o["score"] == "observational"
        odds = P["ml_m"] / (1 - P["ml_m"]) if ob else one
        rr, ma = np.zeros(n), np.zeros(n)
        for (a, u), sg in {(1, 1): 1.0, (1, 0): -1.0, (0, 1): -1.0, (0, 0): 1.0}.items():
            ind = ((d == a) & (t == u)).astype(float)
            wgt = odds if a == 0 else one
            if o["isn"]:
                den = np.mean(ind * wgt)
            elif ob:
                den = p * (lam if u else 1 - lam)
            else:
                den = (p if a else 1 - p) * (lam if u else 1 - lam)
            rr = rr + sg * ind * wgt / den
            ma = ma + wgt / den
        if ob:
            ma = ma * d / p
    else:
        return None
    s2e = res**2
    e = 2 * ma - rr**2
    return np.mean(s2e), np.mean(e), s2e - np.mean(s2e), e - np.mean(e), rr


def cluster_mean(v, smpls, smpls_cluster):
    """Average of v in which every fold has the weight of the clustered variance: one over its number of test clusters (or cells)."""
    num = den = 0.0
    for (_, te), (_, cl) in zip(smpls, smpls_cluster):
        w = 1.0 / np.prod([len(x) for x in cl])
        num += w * np.sum(v[te])
        den += w * len(te)
    return num / den
