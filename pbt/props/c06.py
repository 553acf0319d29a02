"""C06: difference-in-differences models."""
import numpy as np

from .. import common, gen, ref
from ..core import close, sub

RULE = """A case is a generated panel (changes in outcome) or repeated-cross-section data set, observational or experimental score,
in-sample normalization on/off, trimming threshold 1e-12..0.45, supplied splittings (also unbalanced and with training sets smaller
than the complement), 2-4 folds, 1-3 repetitions, fitted or arbitrary nuisance values. Non-trivial: positive standard error."""
ASSUMPTIONS = ["nuisance predictions are read from the fitted model (their correctness is C01)"]
KI = ("did", "didcs")


def _lab(c, m, cx):
    o = c.o
    cx.label(f"{c.kind}:{o['score']}", "in-sample" if o["isn"] else "raw", f"trim={o['trim']}")
    cx.nontrivial(bool(np.all(m.all_se > 0)))


@sub("fitted", gen.specs(kinds=KI), quick=1200)
def fitted(spec, cx):
    c = gen.Case(spec)
    m = c.make().fit()
    common.check_linear(c, m)
    common.agg_check(c, m)
    _lab(c, m, cx)


@sub("arbitrary_nuisances", common.with_flag(gen.specs(kinds=KI), s=gen.SEED), quick=1200)
def arbitrary(spec, cx):
    c = gen.Case(spec["c"])
    ext = common.external(c, seed=spec["s"])
    if c.o["score"] == "experimental":
        ext = {d: {k: v for k, v in e.items() if k != "ml_m"} for d, e in ext.items()}
    m = c.make()
    m.fit(external_predictions=ext)
    P = common.check_linear(c, m)
    for (r, j), pr in P.items():
        for nm, v in pr.items():
            want = ext[c.dn[j]][nm][:, r]
            close(v, ref.clip(want, c.o["trim"]) if nm == "ml_m" else want, f"{nm} used")
    common.agg_check(c, m)
    _lab(c, m, cx)


@sub("unstratified", common.with_flag(gen.specs(kinds=KI), s=gen.SEED), quick=500)
def unstratified(spec, cx):
    """Splittings whose folds have different treatment and time shares: the shares come from the training folds."""
    c = gen.Case(spec["c"])
    rng = np.random.default_rng(spec["s"])
    c.smpls = gen.make_smpls(rng, c.n, c.k, c.r, None, "strat")
    common.need_cells(c)
    m = c.make().fit()
    common.check_linear(c, m)
    sh = [np.mean(c.D[tr, 0]) for tr, _ in c.smpls[0]]
    cx.nontrivial(np.ptp(sh) > 0)
    _lab(c, m, cx)
