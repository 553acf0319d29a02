"""Snapshots of everything observable of an object: all public properties, recursively."""
import warnings

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator

from doubleml import DoubleMLAPOS, DoubleMLBLP, DoubleMLQTE
from doubleml.double_ml import DoubleML
from doubleml.double_ml_data import DoubleMLBaseData
from doubleml.double_ml_framework import DoubleMLFramework
from doubleml.utils.policytree import DoubleMLPolicyTree

from .core import Fail, close, same

OURS = (DoubleML, DoubleMLBaseData, DoubleMLFramework, DoubleMLAPOS, DoubleMLQTE, DoubleMLBLP, DoubleMLPolicyTree)


def props(cls):
    out = []
    for k in cls.__mro__:
        out += [n for n, v in vars(k).items() if isinstance(v, property) and not n.startswith("_")]
    return sorted(set(out))


def freeze(o, depth=4):
    """A deep, comparable copy of a value."""
    if isinstance(o, np.ndarray):
        return ("array", str(o.dtype), o.copy() if o.dtype != object else [freeze(x, depth) for x in o.tolist()])
    if isinstance(o, (pd.DataFrame, pd.Series)):
        d = o.to_frame("s") if isinstance(o, pd.Series) else o
        return ("table", d.copy(deep=True), [str(t) for t in d.dtypes])
    if isinstance(o, dict):
        return ("dict", {str(k): freeze(v, depth) for k, v in o.items()})
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(v, depth) for v in o])
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(map(str, o)))
    if isinstance(o, BaseEstimator):
        return ("estimator", type(o).__name__, {k: freeze(v, depth) for k, v in sorted(vars(o).items())})
    if isinstance(o, OURS) or type(o).__name__ == "RDFlex":
        if depth <= 0:
            return ("deep",)
        return state(o, depth)
    if isinstance(o, (float, np.floating)):
        return ("nan",) if o != o else float(o)
    if o is None or isinstance(o, (int, str, bool, np.integer, np.bool_)):
        return o
    return ("object", type(o).__name__)


def state(o, depth=4):
    """All public properties and the printed form; a property that is refused is recorded as refused."""
    out = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in props(type(o)):
            try:
                v = getattr(o, n)
            except Exception as e:  # noqa: BLE001
                out[n] = ("refused", type(e).__name__)
                continue
            out[n] = freeze(v, depth - 1)
        try:
            out["printed"] = str(o) if " at 0x" not in str(o) else ""
        except Exception as e:  # noqa: BLE001
            out["printed"] = ("refused", type(e).__name__)
    return ("props", type(o).__name__, out)


def equal(a, b, what, tol=0.0):
    """Equality of two frozen values; with tol > 0, floats agree up to rounding and printed forms are ignored."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "props" == b[0]:
        if a[1] != b[1] or set(a[2]) != set(b[2]):
            raise Fail(f"{what}: different kinds of objects")
        for k in a[2]:
            if not (tol and k == "printed"):
                equal(a[2][k], b[2][k], f"{what}.{k}", tol)
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            equal(x, y, what, tol)
        return
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            equal(x, y, f"{what}[{i}]", tol)
        return
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            equal(a[k], b[k], f"{what}[{k}]", tol)
        return
    if tol:
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind == "f" and b.dtype.kind == "f":
            close(a, b, what, tol, tol)
            return
        if isinstance(a, float) and isinstance(b, float):
            close(a, b, what, tol, tol)
            return
        if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and a.index.equals(b.index):
            for i, k in enumerate(a.columns):
                x, y = a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy()
                equal(x, y, f"{what}[{k}]", tol if x.dtype.kind == "f" and y.dtype.kind == "f" else 0.0)
            return
    same(a, b, what)
