"""Fast deterministic learners. Predictions depend on every training row, so a wrong training set is visible."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

LOG = []  # (tag, kind, ids, y, params) of every fit of a spying learner
FITS = {"n": 0}


def _design(X, skip):
    X = np.asarray(X, dtype=float)
    X = np.where(np.isfinite(X), X, 0.5)
    X = X[:, skip:]
    return np.column_stack((np.ones(X.shape[0]), X))


class Reg(RegressorMixin, BaseEstimator):
    """Ridge regression in closed form; `spy` > 0 logs training rows, identified by the first `spy` columns (not used as features)."""

    def __init__(self, alpha=0.1, shift=0.0, spy=0, tag=""):
        self.alpha = alpha
        self.shift = shift
        self.spy = spy
        self.tag = tag

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X, dtype=float)
        y = np.asarray(y, dtype=float)
        if self.spy:
            LOG.append((self.tag, "reg", tuple(X[:, 0].tolist()), tuple(y.tolist()), self.alpha))
        Z = _design(X, self.spy)
        w = np.ones(Z.shape[0]) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        A = (Z * w[:, None]).T @ Z + self.alpha * np.eye(Z.shape[1])
        self.b_ = np.linalg.solve(A, (Z * w[:, None]).T @ y)
        self.n_features_in_ = X.shape[1]
        FITS["n"] += 1
        return self

    def predict(self, X):
        return _design(X, self.spy) @ self.b_ + self.shift


class Cls(ClassifierMixin, BaseEstimator):
    """'Linear logit': ridge on +-1 labels passed through a sigmoid; always has the classes 0 and 1."""

    def __init__(self, alpha=0.5, gain=1.5, spy=0, tag=""):
        self.alpha = alpha
        self.gain = gain
        self.spy = spy
        self.tag = tag

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X, dtype=float)
        y = np.asarray(y, dtype=float)
        if self.spy:
            LOG.append((self.tag, "cls", tuple(X[:, 0].tolist()), tuple(y.tolist()), self.alpha))
        self.classes_ = np.array([0, 1])
        Z = _design(X, self.spy)
        w = np.ones(Z.shape[0]) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        A = (Z * w[:, None]).T @ Z + self.alpha * np.eye(Z.shape[1])
        self.b_ = np.linalg.solve(A, (Z * w[:, None]).T @ (2.0 * y - 1.0))
        self.n_features_in_ = X.shape[1]
        FITS["n"] += 1
        return self

    def predict_proba(self, X):
        p = 1.0 / (1.0 + np.exp(-self.gain * (_design(X, self.spy) @ self.b_)))
        return np.column_stack((1.0 - p, p))

    def predict(self, X):
        return (self.predict_proba(X)[:, 1] > 0.5).astype(int)


class PathReg(Reg):
    """Regressor whose predictions also depend nonlinearly on a second parameter (for tuning / routing checks)."""

    def __init__(self, alpha=0.1, shift=0.0, spy=0, tag="", power=1):
        super().__init__(alpha, shift, spy, tag)
        self.power = power


class Broken(RegressorMixin, BaseEstimator):
    """Must never be fitted (used where external predictions replace a learner)."""

    def fit(self, X, y):
        raise RuntimeError("a learner replaced by external predictions was fitted")

    def predict(self, X):
        raise RuntimeError("a learner replaced by external predictions was used")


class BrokenCls(ClassifierMixin, BaseEstimator):
    def fit(self, X, y):
        raise RuntimeError("a learner replaced by external predictions was fitted")

    def predict_proba(self, X):
        raise RuntimeError("a learner replaced by external predictions was used")

    def predict(self, X):
        raise RuntimeError("a learner replaced by external predictions was used")


class AffReg(Reg):
    """Ridge regression with a free intercept: equivariant to affine changes of the target and shifts of the features."""

    def fit(self, X, y, sample_weight=None):
        Z = _design(X, self.spy)[:, 1:]
        y = np.asarray(y, dtype=float)
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        self.mx_, self.my_ = np.average(Z, axis=0, weights=w), np.average(y, weights=w)
        Q = Z - self.mx_
        self.b_ = np.linalg.solve((Q * w[:, None]).T @ Q + self.alpha * np.eye(Q.shape[1]), (Q * w[:, None]).T @ (y - self.my_))
        self.n_features_in_ = np.asarray(X).shape[1]
        return self

    def predict(self, X):
        return (_design(X, self.spy)[:, 1:] - self.mx_) @ self.b_ + self.my_ + self.shift


class AffCls(Cls):
    """'Linear logit' with a free intercept; relabelling the classes mirrors the probabilities."""

    def fit(self, X, y, sample_weight=None):
        self.r_ = AffReg(self.alpha, spy=self.spy).fit(X, 2.0 * np.asarray(y, dtype=float) - 1.0, sample_weight)
        self.classes_ = np.array([0, 1])
        self.n_features_in_ = np.asarray(X).shape[1]
        return self

    def predict_proba(self, X):
        p = 1.0 / (1.0 + np.exp(-self.gain * self.r_.predict(X)))
        return np.column_stack((1.0 - p, p))


class RdReg(AffReg):
    """Weighted ridge regression that records (tag, X, y, weights) of its fit and the rows it predicts for."""

    def fit(self, X, y, sample_weight=None):
        super().fit(X, y, sample_weight)
        self.ev_ = {"tag": self.tag, "X": np.array(X, dtype=float), "y": np.array(y, dtype=float),
                    "w": None if sample_weight is None else np.array(sample_weight, dtype=float), "pred": []}
        LOG.append(self.ev_)
        return self

    def predict(self, X):
        if hasattr(self, "ev_"):
            self.ev_["pred"].append(np.array(X, dtype=float))
        return super().predict(X)


class RdCls(AffCls):
    def fit(self, X, y, sample_weight=None):
        super().fit(X, y, sample_weight)
        self.ev_ = {"tag": self.tag, "X": np.array(X, dtype=float), "y": np.array(y, dtype=float),
                    "w": None if sample_weight is None else np.array(sample_weight, dtype=float), "pred": []}
        LOG.append(self.ev_)
        return self

    def predict_proba(self, X):
        self.ev_["pred"].append(np.array(X, dtype=float))
        return super().predict_proba(X)
