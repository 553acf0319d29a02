"""Generated result objects (DoubleMLFramework) with known contents, and the reference algebra on them."""
import copy

import numpy as np
from hypothesis import strategies as st

from doubleml.double_ml_framework import DoubleMLFramework

from . import ref
from .core import close
from .gen import SEED, deal


def specs(max_p=5, max_r=5, cluster=(0, 0, 0, 1, 2), sens=(0, 1, 2), max_n=60):
    return st.fixed_dictionaries({
        "n": st.integers(12, max_n), "p": st.integers(1, max_p), "r": st.integers(1, max_r), "seed": SEED,
        "cl": st.sampled_from(list(cluster)), "sens": st.sampled_from(list(sens)), "names": st.booleans(),
        "mag": st.sampled_from([1.0, 1.0, 1e-3, 1e4]), "sig": st.sampled_from([0.0, 1.0, 4.0])})


class Model:
    """Numpy model of a result object."""

    def __init__(self, th, psi, scale, cl=None, mb=None, pmb=None, s2=None, nu2=None, names=None, ses=None):
        self.th, self.psi, self.scale, self.cl = th, psi, scale, cl
        self.mb, self.pmb, self.s2, self.nu2, self.names = mb, pmb, s2, nu2, names
        self.all_se = self.se_of(psi) if ses is None else ses

    def se_of(self, psi):
        n, p, r = psi.shape
        out = np.empty((p, r))
        for i in range(r):
            for j in range(p):
                if self.cl is None:
                    out[j, i] = np.sqrt(np.mean(psi[:, j, i] ** 2) / self.scale[j])
                else:
                    C, sm, smc, k = self.cl
                    out[j, i] = ref.sandwich_cluster(psi[:, j, i], np.ones(n), C, sm[i], smc[i], k)[0]
        return out

    @property
    def agg(self):
        return ref.aggregate(self.th, self.all_se, self.scale.reshape(-1, 1))

    def dict(self):
        co, se = self.agg
        d = {"thetas": co, "ses": se, "all_thetas": self.th, "all_ses": self.all_se, "var_scaling_factors": self.scale,
             "scaled_psi": self.psi}
        if self.names:
            d["treatment_names"] = list(self.names)
        if self.cl is not None:
            C, sm, smc, k = self.cl
            d["is_cluster_data"] = True
            d["cluster_dict"] = {"smpls": sm, "smpls_cluster": smc, "cluster_vars": C, "n_folds_per_cluster": k}
        if self.mb is not None:
            d["sensitivity_elements"] = {"max_bias": self.mb, "psi_max_bias": self.pmb}
            if self.s2 is not None:
                d["sensitivity_elements"].update(sigma2=self.s2, nu2=self.nu2)
        return copy.deepcopy(d)

    def build(self):
        return DoubleMLFramework(self.dict())

    # the linear maps of the documentation
    def plus(self, o, sign=1.0):
        both = self.mb is not None and o.mb is not None
        return Model(self.th + sign * o.th, self.psi + sign * o.psi, self.scale, self.cl,
                     self.mb + o.mb if both else None, self.pmb + o.pmb if both else None)

    def times(self, c):
        a = abs(c)
        m = self.mb is not None
        return Model(c * self.th, c * self.psi, self.scale, self.cl, a * self.mb if m else None, a * self.pmb if m else None,
                     self.s2, None if self.nu2 is None else c * c * self.nu2, ses=a * self.all_se)

    def cat(self, o):
        both = self.mb is not None and o.mb is not None
        bb = both and self.s2 is not None and o.s2 is not None
        j = lambda a, b: np.concatenate((a, b), axis=1)  # noqa: E731
        return Model(np.concatenate((self.th, o.th)), j(self.psi, o.psi), np.concatenate((self.scale, o.scale)), None,
                     j(self.mb, o.mb) if both else None, j(self.pmb, o.pmb) if both else None,
                     j(self.s2, o.s2) if bb else None, j(self.nu2, o.nu2) if bb else None,
                     ses=np.concatenate((self.all_se, o.all_se)))

    def compare(self, f, what, rtol=1e-7):
        at = 1e-9 * max(1e-12, float(np.max(np.abs(self.th))) if self.th.size else 1.0)
        n, p, r = self.psi.shape
        from .core import same
        same((f.n_obs, f.n_thetas, f.n_rep), (n, p, r), what + ": shape")
        close(f.all_thetas, self.th, what + ": repetition estimates", rtol, at)
        close(f.scaled_psi, self.psi, what + ": scores", rtol, 1e-9 * (1e-12 + float(np.max(np.abs(self.psi)))))
        ats = 1e-9 * float(np.max(self.all_se)) if self.all_se.size else 0
        close(f.all_ses, self.all_se, what + ": repetition standard errors", rtol, ats)
        co, se = self.agg
        close(f.thetas, co, what + ": estimates", rtol, at)
        close(f.ses, se, what + ": standard errors", rtol, ats + at)
        if self.mb is None:
            same(f.sensitivity_elements, None, what + ": sensitivity elements")
        else:
            E = f.sensitivity_elements
            close(E["max_bias"], self.mb, what + ": bias bound", rtol)
            close(E["psi_max_bias"], self.pmb, what + ": score of the bias bound", rtol, 1e-9 * (1e-12 + float(np.max(np.abs(self.pmb)))))
            same("sigma2" in E, self.s2 is not None, what + ": benchmark elements present")
            if self.s2 is not None:
                close(E["sigma2"], self.s2, what + ": sigma2", rtol)
                close(E["nu2"], self.nu2, what + ": nu2", rtol)


def clusters(rng, n, r, q):
    k = 2
    C = np.column_stack([rng.integers(0, 5, n) * 3 for _ in range(q)])
    if q == 2:
        g = np.array([(a, b) for a in range(5) for b in range(5)])
        C = np.tile(g, (n // 25 + 1, 1))[:n] * 3
    else:
        C[:5, 0] = np.arange(5) * 3
    out, outc = [], []
    for _ in range(r):
        parts = []
        for j in range(q):
            u = np.unique(C[:, j])
            f = deal(rng, len(u), k)
            parts.append([(u[f != i], u[f == i]) for i in range(k)])
        grid = [(a,) for a in range(k)] if q == 1 else [(a, b) for b in range(k) for a in range(k)]
        sm, smc = [], []
        for g in grid:
            tr = np.all([np.isin(C[:, j], parts[j][i][0]) for j, i in enumerate(g)], axis=0)
            te = np.all([np.isin(C[:, j], parts[j][i][1]) for j, i in enumerate(g)], axis=0)
            sm.append((np.where(tr)[0], np.where(te)[0]))
            smc.append(([parts[j][i][0] for j, i in enumerate(g)], [parts[j][i][1] for j, i in enumerate(g)]))
        out.append(sm)
        outc.append(smc)
    return C, out, outc, k


def model(spec, salt=0, p=None):
    """The numpy model of a spec; salt gives further, compatible objects (same observations, repetitions and clusters)."""
    rng = np.random.default_rng(spec["seed"])
    n, r = spec["n"], spec["r"]
    cl = None
    if spec["cl"]:
        if spec["cl"] == 2:
            n = max(n, 50)
        cl = clusters(rng, n, r, spec["cl"])
    rng = np.random.default_rng([spec["seed"], salt])
    p = spec["p"] if p is None else p
    base = rng.normal(size=(n, p, 1)) * rng.uniform(0.3, 3, (1, p, 1))
    psi = (base + 0.4 * rng.normal(size=(n, p, r))) * spec["mag"]
    if rng.random() < 0.3:
        psi = psi + spec["mag"] * rng.standard_t(3, size=psi.shape)
    psi -= psi.mean(axis=0, keepdims=True)
    scale = np.full(p, float(n))
    if cl is not None:
        scale = np.full(p, float(min(len(np.unique(cl[0][:, j])) for j in range(cl[0].shape[1]))))
    sd = spec["mag"] / np.sqrt(n)
    th = rng.normal(0, sd * (0.2 + spec["sig"]), (p, 1)) + rng.normal(0, 0.5 * sd, (p, r))
    mb = pmb = s2 = nu2 = None
    if spec["sens"]:
        s2, nu2 = np.exp(rng.normal(0, 0.6, (1, p, r))), np.exp(rng.normal(0, 0.6, (1, p, r)))
        mb = np.sqrt(s2 * nu2) * spec["mag"]
        pmb = rng.normal(size=(n, p, r)) * spec["mag"] * rng.choice([0.1, 0.7])
        pmb -= pmb.mean(axis=0, keepdims=True)
        if spec["sens"] == 1:
            s2 = nu2 = None
    names = [f"par{salt}_{i}" for i in range(p)] if spec["names"] else None
    return Model(th, psi, scale, cl, mb, pmb, s2, nu2, names)
