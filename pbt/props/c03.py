"""C03: partially linear models."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import sub

RULE = """A case is a generated data set, one variant of the partially linear (IV) model - score, number of treatments 1-3, number of
instruments 1-3, classifier or regressor for the treatment -, a splitting with 2-4 folds and 1-3 repetitions, and nuisance
predictions that are either fitted or supplied arbitrary arrays. Non-trivial: the score has variation, i.e. the standard error is
positive and the estimate differs between repetitions when there is more than one."""
ASSUMPTIONS = ["nuisance predictions are read from the fitted model (their correctness is C01)"]

KI = ("plr", "pliv")


def _nt(c, m, cx):
    cx.nontrivial(bool(np.all(m.all_se > 0)) and (c.r == 1 or bool(np.all(np.ptp(m.all_coef, axis=1) > 0))))
    cx.label(c.kind + ":" + str(c.o.get("score", c.o.get("var"))), f"treatments={c.nt}", f"reps={c.r}")


@sub("fitted", gen.specs(kinds=KI), quick=1500)
def fitted(spec, cx):
    c = gen.Case(spec)
    m = c.make().fit()
    common.check_linear(c, m)
    common.agg_check(c, m)
    _nt(c, m, cx)


@sub("arbitrary_nuisances", common.with_flag(gen.specs(kinds=KI), s=gen.SEED), quick=1500)
def arbitrary(spec, cx):
    """Any values of the nuisance functions, not only fitted ones."""
    c = gen.Case(spec["c"])
    if c.kind == "pliv" and c.o["var"] in ("z", "zm", "xz", "xzm"):
        common.check_linear(c, c.make().fit())
        return
    ext = common.external(c, seed=spec["s"])
    m = c.make()
    m.fit(external_predictions=ext)
    P = common.check_linear(c, m)
    for (r, j), pr in P.items():
        for nm, v in pr.items():
            common.close(v, ext[c.dn[j]][nm][:, r], f"{nm} used")
    common.agg_check(c, m)
    _nt(c, m, cx)


_ = st
