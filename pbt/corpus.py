"""Real dumps used as mutation seeds (built once per worker)."""
from __future__ import annotations

import collections
import functools
import operator
import warnings

import numpy as np


def _qforest(X, y):
    try:
        from quantile_forest import RandomForestQuantileRegressor
    except Exception:
        return None
    return RandomForestQuantileRegressor(n_estimators=1, max_depth=1, random_state=0).fit(X, y).forest_


def _objects():
    import scipy.sparse as sp
    from sklearn.compose import ColumnTransformer
    from sklearn.ensemble import GradientBoostingClassifier, HistGradientBoostingRegressor
    from sklearn.feature_extraction.text import CountVectorizer
    from sklearn.neighbors import KDTree
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import FunctionTransformer, OneHotEncoder, StandardScaler
    from sklearn.tree import DecisionTreeClassifier

    from . import zoo

    rs = np.random.RandomState(0)
    X = rs.randn(12, 3)
    y = np.arange(12) % 2
    a = np.arange(6.0).reshape(2, 3)
    shared = [1, a]
    yield "scalars", [1, 2.5, "x", None, True, float("nan"), "é"]
    yield "dicts", {"a": 1, 2: "b", 1.5: {"c": [1, (2, 3)]}, np.int64(7): None}
    yield "odict", collections.OrderedDict([("z", [1]), ("a", {1, 2})])
    yield "ddict", collections.defaultdict(list, {"k": [1, 2]})
    yield "oddkeys", {(1, 2): "t", "1": 1, 1: "i"}
    yield "bytes", [b"abc", bytearray(b"\x00\xff"), slice(1, None, 2)]
    yield "arrays", {"f": a, "i": np.arange(4, dtype="<i2"), "s": np.array(["ab", "c"]), "b": np.array([True])}
    yield "objarr", np.array([[1, "a"], [None, 2.5]], dtype=object)
    yield "masked", np.ma.MaskedArray([1.0, 2.0, 3.0], mask=[0, 1, 0], fill_value=9.0, hard_mask=True)
    yield "npscalars", [np.float64(1.5), np.int8(3), np.str_("q"), np.bytes_(b"z"), np.datetime64("2020-01-01")]
    yield "dtypes", [np.dtype("f8"), np.dtype([("a", "i4"), ("b", "U3")]), np.dtype(("f4", (2, 2)))]
    yield "rng", [np.random.RandomState(1), np.random.default_rng(2), np.random.Generator(np.random.MT19937(3))]
    yield "sparse", [sp.csr_matrix(a), sp.coo_matrix(a), sp.csc_array(a)]
    yield "funcs", [np.sqrt, np.add, int, np.float64, len]
    yield "partial", functools.partial(np.add, 1, out=None)
    yield "getters", [operator.attrgetter("real"), operator.itemgetter(1, "a"), operator.methodcaller("upper")]
    yield "shared", [shared, {"x": shared}, a, a]
    yield "objects", [zoo.Plain(a=1, b=[a]), zoo.make("PointNT", [1, 2, 3]) if "PointNT" in zoo.MAKERS else 1]
    yield "method", LogisticRegression().fit
    yield "funcobj", [zoo.idy, zoo.Plain]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield "logreg", LogisticRegression().fit(X, y)
        yield "pipe", Pipeline([("s", StandardScaler()), ("f", FunctionTransformer(np.sqrt)), ("c", LogisticRegression(C=0.5))])
        yield "tree", DecisionTreeClassifier(max_depth=2, random_state=0).fit(X, y)
        yield "sgd", SGDClassifier(loss="modified_huber", random_state=0, max_iter=5).fit(X, y)
        yield "gbc", GradientBoostingClassifier(n_estimators=2, max_depth=1, random_state=0).fit(X, y)
        yield "hgb", HistGradientBoostingRegressor(max_iter=1, max_depth=2, min_samples_leaf=2, random_state=0).fit(X, y)
        yield "ct", ColumnTransformer([("a", StandardScaler(), [0, 1]), ("b", OneHotEncoder(), slice(2, 3))])
        yield "vec", CountVectorizer().fit(["a b cc", "dd ee"])
        yield "kdtree", KDTree(X[:, :2], leaf_size=4)
        yield "qforest", _qforest(X, y)


NAMES = ["scalars", "dicts", "odict", "ddict", "oddkeys", "bytes", "arrays", "objarr", "masked", "npscalars", "dtypes", "rng", "sparse",
         "funcs", "partial", "getters", "shared", "objects", "method", "funcobj", "logreg", "pipe", "tree", "sgd", "gbc", "hgb", "ct", "vec", "kdtree", "qforest"]


def _donors():
    """Values to put into places where they do not belong."""
    import fractions

    from sklearn.tree import DecisionTreeClassifier
    from sklearn.utils import Bunch

    rs = np.random.RandomState(4)
    g = np.random.default_rng(4)
    t = DecisionTreeClassifier(max_depth=1, random_state=0).fit([[0.0], [1.0], [2.0]], [0, 1, 1])
    yield "d-rs-tuple", rs.get_state()
    yield "d-rs-dict", rs.get_state(legacy=False)
    yield "d-bitgen", g.bit_generator.state
    yield "d-tree-state", t.tree_.__getstate__()
    yield "d-est-state", t.__getstate__()
    yield "d-bunch", Bunch(a=1)
    yield "d-names", ["numpy", "os.getcwd", "MT19937", "schema.json"]
    yield "d-dtype-tuple", ("float64", (2,), None)
    yield "d-int", 7
    yield "d-negative", [-1, -1]
    yield "d-str", "MT19937"
    yield "d-none", None
    yield "d-empty", {}
    yield "d-etuple", ()
    yield "d-complex", {"type": "complex", "real": 1.0}
    yield "d-zero-d", np.array(3)
    yield "d-big-shape", (2**40, 2**40)
    yield "d-bool", np.array([True, False])
    yield "d-str-arr", np.array(["a", "bb"])
    yield "d-struct", np.zeros(2, dtype=[("a", "f8"), ("b", "i4")])
    yield "d-self-type", type
    yield "d-fraction", fractions.Fraction(1, 3)


def donors():
    global _built
    if _built is None:
        from skops.io import dumps

        from .archives import normalise, read

        _built = {}
        for name, obj in _donors():
            try:
                _built[name] = normalise(*read(dumps(obj)))
            except Exception:
                pass
    return _built


_built = None


def objects():
    return dict(_objects())


def build():
    from skops.io import dumps

    from .archives import normalise, read

    out = {}
    for name, obj in _objects():
        try:
            out[name] = normalise(*read(dumps(obj)))
        except Exception:  # not this corpus' business; the cases built on it are skipped
            out[name] = None
    assert list(out) == NAMES, list(out)
    return out
