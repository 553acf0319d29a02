"""C08: propensity scores are bounded, normalized and passed through."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Fail, Skip, close, ensure, sub
from ..learners import Cls

RULE = """A case is a data set, a model class with propensity scores, a trimming threshold between 1e-12 and 0.49, normalization on/off,
and propensities that are fitted by a steep classifier or supplied (values at 0, 1, exactly at, just inside and outside the bounds).
Non-trivial: at least one propensity lies outside and one strictly inside the bounds, or (normalization) both arms are populated and
the raw weights do not already average to one."""
ASSUMPTIONS = ["inverse-probability weights are observed from outside: the score at zero outcome predictions is linear in the outcome",
               "recorded findings: IIVM normalizes with the treatment; SSM normalizes to the arm's share instead of one"]

TR = st.sampled_from([1e-12, 0.001, 0.01, 0.05, 0.1, 0.25, 0.4, 0.49])
EXT = ("irm", "apo", "iivm", "did", "didcs", "pq", "lpq")
OBS = {"score": st.just("observational")}


def name_of(c):
    return "ml_m_z" if c.kind == "lpq" else "ml_m"


def fix(spec):
    """DiD with an experimental score has no propensity: use the observational one."""
    if spec["kind"] in ("did", "didcs"):
        spec["o"]["score"] = "observational"
    return spec


def extreme(rng, n, r, t):
    pool = np.array([0.0, 1.0, t, 1 - t, t / 2, 1 - t / 2, t * 1.0001, 1 - t * 1.0001, 0.5, 0.3, 0.7, 1e-15])
    v = np.where(rng.random((n, r)) < 0.5, rng.choice(pool, (n, r)), rng.uniform(0.0, 1.0, (n, r)))
    return v


@sub("supplied", common.with_flag(gen.specs(kinds=EXT, over={"trim": TR}), s=gen.SEED), quick=1200)
def supplied(spec, cx):
    """Supplied scores enter as their nearest value in [t, 1-t]; replacing an outside value by another outside value changes nothing."""
    c = gen.Case(fix(spec["c"]))
    t = c.o["trim"]
    rng = np.random.default_rng(spec["s"])
    from .c07 import ext_of

    ext = ext_of(c, spec["s"]) if c.kind in ("pq", "lpq") else common.external(c, seed=spec["s"])
    nm = name_of(c)
    v = extreme(rng, c.n, c.r, t)
    e1 = {c.dn[0]: dict(ext[c.dn[0]], **{nm: v})}
    e2 = {c.dn[0]: dict(ext[c.dn[0]], **{nm: ref.clip(v, t)})}
    below, above = v < t, v > 1 - t
    v3 = np.where(below, rng.uniform(0, t, v.shape), np.where(above, rng.uniform(1 - t, 1, v.shape), v))
    e3 = {c.dn[0]: dict(ext[c.dn[0]], **{nm: v3})}
    ms = []
    for e in (e1, e2, e3):
        m = c.make()
        m.fit(external_predictions=e)
        ms.append(m)
    if nm == "ml_m":
        got = ms[0].predictions["ml_m"][:, :, 0]
        close(got, ref.clip(v, t), f"{c.kind} bounded propensity", 1e-12, 1e-14)
        ensure(np.all(got >= t) and np.all(got <= 1 - t), f"{c.kind} propensity outside [{t}, {1 - t}]")
    ensure(np.all(np.isfinite(ms[0].all_coef)) or c.kind == "iivm", f"{c.kind}: estimate not finite although the propensity is bounded")
    for m, w in ((ms[1], "already bounded scores"), (ms[2], "other values outside the bounds")):
        close(ms[0].all_coef, m.all_coef, f"{c.kind}: estimate with {w}", 1e-7, 1e-9)
        close(ms[0].psi, m.psi, f"{c.kind}: score with {w}", 1e-6, 1e-7)
        close(ms[0].all_se, m.all_se, f"{c.kind}: standard error with {w}", 1e-6, 1e-9)
    cx.label(c.kind, f"trim={t}")
    cx.nontrivial(bool(np.any(below | above)) and bool(np.any((v > t) & (v < 1 - t))))


PROP = ("irm", "apo", "iivm", "ssm", "did", "didcs", "pq", "cvar")


@sub("estimated", common.with_flag(gen.specs(kinds=PROP, over={"trim": TR}, max_r=2), g=st.sampled_from([1.0, 4.0, 12.0])), quick=700)
def estimated(spec, cx):
    """Fitted scores: the learner's value where inside the bounds, the nearest bound elsewhere."""
    c = gen.Case(fix(spec["c"]))
    t = c.o["trim"]
    c.learners["ml_m"] = Cls(alpha=0.05, gain=spec["g"], tag="m")
    m = c.make().fit()
    hit = inside = False
    for r in range(c.r):
        raw = ref.nuisances(c, 0, r)["ml_m"].preds
        got = m.predictions["ml_m"][:, r, 0]
        close(got, ref.clip(raw, t), f"{c.kind} stored propensity", 1e-9, 1e-12)
        ensure(np.all(got >= t) and np.all(got <= 1 - t), f"{c.kind} propensity outside the bounds")
        hit |= bool(np.any(raw < t) | np.any(raw > 1 - t))
        inside |= bool(np.any((raw > t) & (raw < 1 - t)))
    cx.label(c.kind, "hits bound" if hit else "inside")
    cx.nontrivial(hit and inside)


def observed_weights(c, m, r, arm):
    """IPW weights from the score at zero outcome predictions."""
    y = c.Y
    if np.any(y == 0):
        raise Skip("zero outcome")
    if c.kind == "pq":
        return m._seen[r]
    b = m.psi_elements["psi_b"][:, r, 0]
    return b / y


NORM = ("irm", "apo", "iivm", "pq")


@sub("normalized_weights", common.with_flag(gen.specs(kinds=NORM, over={
    "norm": st.just(True), "score": st.just("ATE"), "w": st.just("none"), "ybin": st.just(0), "kde": st.just(0)}), s=gen.SEED), quick=800)
def normalized(spec, cx):
    """The weights of each arm average to one and keep their proportions within the arm."""
    s = dict(spec["c"])
    if s["kind"] == "iivm":
        s["o"]["score"] = "LATE"
    c = gen.Case(s)
    t = c.o["trim"]
    rng = np.random.default_rng(spec["s"])
    arm = {"irm": c.D[:, 0], "apo": (c.D[:, 0] == c.o.get("lev")).astype(float), "pq": c.D[:, 0],
           "iivm": c.Z[:, 0] if c.Z is not None else None}[c.kind]
    mm = ref.clip(extreme(rng, c.n, c.r, max(t, 0.01)), max(t, 0.01))
    zero = np.zeros((c.n, c.r))
    ext = {"irm": {"ml_g0": zero, "ml_g1": zero, "ml_m": mm}, "apo": {"ml_g_d_lvl0": zero, "ml_g_d_lvl1": zero, "ml_m": mm},
           "iivm": {"ml_g0": zero, "ml_g1": zero, "ml_m": mm, "ml_r0": zero + 0.2, "ml_r1": zero + 0.8},
           "pq": {"ml_g": zero, "ml_m": mm}}[c.kind]
    seen = []
    kw = {}
    if c.kind == "pq":
        kw["kde"] = lambda u, w: (seen.append(np.array(w)), 0.3)[1]
    m = c.make(**kw)
    m.fit(external_predictions={c.dn[0]: ext})
    nt = False
    for r in range(c.r):
        if c.kind == "pq":
            tv = c.o["t"]
            arms = [(c.D[:, 0] == tv, 1.0)]
            w = None
            mn = ref.normalized(mm[:, r], arm)
            want = (c.D[:, 0] == tv) / (mn if tv == 1 else 1 - mn)
            # the weights handed to the density estimate; one call per repetition at the estimate
            if not any(np.allclose(v, want, rtol=1e-7) for v in seen):
                raise Fail(f"pq rep {r}: no density weights with mean one in the arm (means {[float(np.mean(v)) for v in seen[:5]]})")
            ensure(all(abs(np.mean(v) - 1) < 1e-7 for v in seen), "pq: density weights do not average to one")
            nt = nt or abs(np.mean((c.D[:, 0] == tv) / (mm[:, r] if tv else 1 - mm[:, r])) - 1) > 1e-6
            continue
        w = m.psi_elements["psi_b"][:, r, 0] / np.where(c.Y == 0, np.nan, c.Y)
        ws = [(arm == 1, w, mm[:, r])]
        if c.kind != "apo":
            ws.append((arm == 0, -w, 1 - mm[:, r]))
        bad = []
        for ind, ww, p in ws:
            raw = ind / p
            want = raw / np.mean(raw)
            got = np.where(ind, ww, 0.0)
            nt = nt or abs(np.mean(raw) - 1) > 1e-6
            if not np.allclose(got[ind], want[ind], rtol=1e-6, atol=1e-9):
                bad.append(f"mean weight {np.mean(got)}")
        if bad:
            if c.kind == "iivm":
                mp = ref.normalized(mm[:, r], c.D[:, 0])
                if np.allclose(w, np.where(arm == 1, 1 / mp, -1 / (1 - mp)), rtol=1e-6):
                    cx.known_finding("C08-iivm-normalization", "IIVM normalizes with the treatment indicator")
                    continue
            raise Fail(f"{c.kind} rep {r}: normalized weights do not average to one: {bad}")
    cx.label(c.kind)
    cx.nontrivial(nt)


@sub("normalization_only_weights", gen.specs(kinds=("irm", "apo", "iivm", "ssm", "pq", "lpq", "cvar"), max_r=2), quick=400)
def only(spec, cx):
    """Normalization leaves all stored nuisance predictions alone, and does not matter when the weights average to one anyway."""
    c = gen.Case(spec)
    a = c.make(normalize_ipw=True).fit()
    b = c.make(normalize_ipw=False).fit()
    for nm in c.nuis_names():
        if c.kind in ("pq", "lpq", "cvar") and nm.startswith("ml_g"):
            continue  # trained on the preliminary quantile, which uses the weights
        close(a.predictions[nm], b.predictions[nm], f"{c.kind} {nm} with and without normalization", 1e-12, 1e-14)
    if c.kind in ("irm", "apo"):
        d = c.D[:, 0] if c.kind == "irm" else (c.D[:, 0] == c.o["lev"]).astype(float)
        m0 = np.full((c.n, c.r), np.mean(d))
        g = {k: v for k, v in common.external(c, seed=1)[c.dn[0]].items()}
        g["ml_m"] = m0
        if c.o["trim"] > min(np.mean(d), 1 - np.mean(d)):
            raise Skip("share outside the bounds")
        A, B = c.make(normalize_ipw=True), c.make(normalize_ipw=False)
        A.fit(external_predictions={c.dn[0]: g})
        B.fit(external_predictions={c.dn[0]: g})
        close(A.all_coef, B.all_coef, f"{c.kind}: normalization of weights that average to one", 1e-8)
        close(A.all_se, B.all_se, f"{c.kind}: normalization of weights that average to one (se)", 1e-8)
    cx.label(c.kind)
    cx.nontrivial(bool(np.any(a.all_coef != b.all_coef)))


@sub("ssm_normalization", gen.specs(kinds=("ssm",), over={"norm": st.just(True)}), quick=150)
def ssm(spec, cx):
    """Selection models: normalized weights of each arm average to one."""
    c = gen.Case(spec)
    m = c.make().fit()
    d, s = c.D[:, 0], c.S
    for r in range(c.r):
        P = common.stored(c, m, r, 0)
        b = m.psi_elements["psi_b"][:, r, 0] - P["ml_g_d1"] + P["ml_g_d0"]
        for v, g, p, sg in ((1, P["ml_g_d1"], P["ml_m"], 1), (0, P["ml_g_d0"], 1 - P["ml_m"], -1)):
            ind = (d == v) & (s == 1)
            w = sg * b[ind] / (c.Y[ind] - g[ind])
            raw = 1 / (p[ind] * P["ml_pi"][ind])
            close(w / np.sum(w), raw / np.sum(raw), f"ssm arm {v}: proportions of the weights", 1e-6)
            mean = np.sum(w) / c.n
            if abs(mean - 1) > 1e-7:
                if abs(mean - np.mean(d == v)) < 1e-7:
                    cx.known_finding("C08-ssm-normalization", "SSM weights average to the share of the arm")
                else:
                    raise Fail(f"ssm arm {v}: normalized weights average to {mean}")
    cx.label(c.o["score"])
    cx.nontrivial()
