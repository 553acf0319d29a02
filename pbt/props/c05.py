"""C05: interactive IV and sample-selection models."""
import numpy as np

from .. import common, gen, ref
from ..core import close, sub

RULE = """A case is a generated data set with binary instrument and treatment (IIVM: LATE or user-written score, every always-/
never-taker setting, normalization on/off, trimming threshold 1e-12..0.45) or with selection (SSM: missing at random, nonignorable
nonresponse, normalization on/off), 2-4 folds, 1-3 repetitions; IIVM also with arbitrary nuisance values. Non-trivial: positive
standard error in every repetition."""
ASSUMPTIONS = ["nuisance predictions are read from the fitted model (their correctness is C01)",
               "recorded finding: IIVM with normalize_ipw=True normalizes with the treatment instead of the instrument; either is accepted in "
               "exactly that configuration, everything else stays checked"]


def _lab(c, m, cx):
    o = c.o
    cx.label(f"{c.kind}:{o['score']}", "norm" if o["norm"] else "raw", f"trim={o['trim']}")
    if c.kind == "iivm":
        cx.label(f"always={o['at']} never={o['nv']}")
    cx.nontrivial(bool(np.all(m.all_se > 0)))


@sub("fitted", gen.specs(kinds=("iivm", "ssm")), quick=1200)
def fitted(spec, cx):
    c = gen.Case(spec)
    m = c.make().fit()
    common.check_linear(c, m, cx, iivm_finding="C05-iivm-normalization" if c.kind == "iivm" else None)
    common.agg_check(c, m)
    _lab(c, m, cx)


@sub("arbitrary_nuisances", common.with_flag(gen.specs(kinds=("iivm",)), s=gen.SEED), quick=1000)
def arbitrary(spec, cx):
    c = gen.Case(spec["c"])
    ext = common.external(c, seed=spec["s"])
    m = c.make()
    m.fit(external_predictions=ext)
    P = common.check_linear(c, m, cx, iivm_finding="C05-iivm-normalization")
    for (r, j), pr in P.items():
        for nm, v in pr.items():
            want = ext[c.dn[j]][nm][:, r]
            close(v, ref.clip(want, c.o["trim"]) if nm == "ml_m" else want, f"{nm} used")
    common.agg_check(c, m)
    _lab(c, m, cx)
