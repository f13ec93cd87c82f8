"""Estimator specs: JSON-able descriptions of scikit-learn estimators with
hyper-parameters drawn from their own parameter constraints, compositions, data.

A node is `[i, [[pi, ci], ...], [child nodes]]`: `i` picks the class from the
pool of the slot (modulo its size), each `[pi, ci]` sets the pi-th parameter to
its ci-th candidate, children fill the estimator slots in order.
"""
from __future__ import annotations

import copy
import functools
import inspect
import operator
import warnings

import numpy as np
import scipy.sparse as sp
import scipy.spatial.distance
import scipy.special
import scipy.stats
from sklearn.base import is_classifier, is_regressor
from sklearn.gaussian_process import kernels as K
from sklearn.utils import all_estimators
from sklearn.utils import _param_validation as pv

from . import estfns as F

warnings.simplefilter("ignore")

EST = dict(all_estimators())
# documented as unsupported by skops
UNSUPPORTED = {"Birch"}
NAMES = sorted(set(EST) - UNSUPPORTED)

TEXT = ["CountVectorizer", "TfidfVectorizer", "HashingVectorizer"]
ONE_D = ["LabelEncoder", "LabelBinarizer", "MultiLabelBinarizer", "IsotonicRegression"]
DICTS = ["DictVectorizer", "FeatureHasher"]
META_C = ["AdaBoostClassifier", "BaggingClassifier", "CalibratedClassifierCV", "ClassifierChain", "FixedThresholdClassifier", "MultiOutputClassifier", "OneVsOneClassifier",
          "OneVsRestClassifier", "OutputCodeClassifier", "SelfTrainingClassifier", "TunedThresholdClassifierCV"]
META_R = ["AdaBoostRegressor", "BaggingRegressor", "MultiOutputRegressor", "RANSACRegressor", "RegressorChain", "TransformedTargetRegressor"]
SELECT = ["RFE", "RFECV", "SelectFromModel", "SequentialFeatureSelector"]
HAND = ["ColumnTransformer", "FeatureUnion", "Pipeline", "GridSearchCV", "RandomizedSearchCV", "VotingClassifier", "VotingRegressor", "StackingClassifier", "StackingRegressor",
        "SparseCoder"]
EXTRA = ["@textpipe", "@textct", "@dictpipe", "@nested", "@halving"]
ROOTS = NAMES + EXTRA
# the composed ones get more of the search
META = META_C + META_R + SELECT + HAND + EXTRA

_slow_child = set("GaussianProcessClassifier TheilSenRegressor MLPClassifier MLPRegressor LogisticRegressionCV".split())


def _pool(kind):
    out = []
    for n, c in all_estimators(type_filter=kind):
        if n in UNSUPPORTED or n in TEXT + ONE_D + DICTS + META + ["KernelCenterer", "PatchExtractor", "TargetEncoder"] or n in _slow_child:
            continue
        if n.startswith("MultiTask") or n in ("CCA", "PLSRegression", "PLSCanonical", "PLSSVD", "GaussianRandomProjection", "SparseRandomProjection") :
            continue
        out.append(n)
    return out


POOLS = {"c": _pool("classifier"), "r": _pool("regressor"), "t": [n for n in _pool("transformer") if n not in ("RandomTreesEmbedding",)], "k": _pool("cluster")}
POOLS["proba"] = ["LogisticRegression", "GaussianNB", "DecisionTreeClassifier", "RandomForestClassifier", "KNeighborsClassifier", "HistGradientBoostingClassifier",
                  "GradientBoostingClassifier", "ExtraTreesClassifier", "LinearDiscriminantAnalysis", "MultinomialNB", "BernoulliNB", "DummyClassifier"]
POOLS["lin"] = ["LogisticRegression", "Ridge", "LinearRegression", "DecisionTreeRegressor", "Lasso", "ElasticNet", "SGDRegressor", "LinearSVC", "RidgeClassifier",
                "DecisionTreeClassifier", "ExtraTreesRegressor", "GradientBoostingRegressor", "Perceptron"]
POOLS["w"] = ["DecisionTreeClassifier", "LogisticRegression", "SGDClassifier", "GaussianNB", "ExtraTreeClassifier", "LinearSVC", "SVC", "RidgeClassifier"]
POOLS["wr"] = ["DecisionTreeRegressor", "LinearRegression", "Ridge", "SGDRegressor", "ExtraTreeRegressor", "SVR", "HuberRegressor", "KNeighborsRegressor"]

# --------------------------------------------------------------------------
# candidate values of parameters: lists of thunks


def lit(*vals):
    return [functools.partial(lambda v: v, v) for v in vals]


def new(*fns):
    return list(fns)


def rng(seed):
    return np.random.RandomState(seed)


def kernels():
    return [
        lambda: K.RBF(), lambda: K.RBF([1.0, 2.0, 1.0, 0.5]), lambda: K.ConstantKernel(2.0) * K.RBF(1.5) + K.WhiteKernel(0.1), lambda: K.Matern(nu=2.5), lambda: K.Matern(nu=0.5, length_scale_bounds="fixed"),
        lambda: K.RationalQuadratic(alpha=0.5), lambda: K.ExpSineSquared(), lambda: K.DotProduct() ** 2, lambda: K.Exponentiation(K.RBF(), 3),
        lambda: K.PairwiseKernel(metric="rbf"), lambda: K.PairwiseKernel(metric="laplacian", gamma=0.3), lambda: K.Sum(K.RBF(), K.Matern()) + 1.5, lambda: 2 * K.DotProduct(np.float32(1.0)),
    ]


def cvs():
    from sklearn import model_selection as ms

    return lit(None, 2, 3) + new(lambda: ms.KFold(2), lambda: ms.KFold(3, shuffle=True, random_state=0), lambda: ms.StratifiedKFold(2, shuffle=True, random_state=rng(1)),
                                 lambda: ms.ShuffleSplit(2, random_state=1), lambda: ms.RepeatedKFold(n_splits=2, n_repeats=1, random_state=0), lambda: ms.TimeSeriesSplit(2),
                                 lambda: [(np.arange(0, 30), np.arange(30, 40)), (np.arange(10, 40), np.arange(0, 10))], lambda: ms.PredefinedSplit(np.arange(40) % 3))


def scorings():
    from sklearn import metrics as m

    return lit(None, "accuracy", "r2", "neg_mean_squared_error") + new(
        lambda: m.make_scorer(m.accuracy_score), lambda: m.make_scorer(m.fbeta_score, beta=2.0, average="macro"), lambda: m.get_scorer("neg_mean_absolute_error"),
        lambda: F.score, lambda: m.make_scorer(m.mean_pinball_loss, alpha=0.3, greater_is_better=False), lambda: m.make_scorer(m.r2_score, greater_is_better=False))


METRIC = lambda: lit("euclidean", "manhattan", "chebyshev", "cosine", "l1", "minkowski", "canberra", "correlation", "braycurtis") + new(lambda: scipy.spatial.distance.cityblock, lambda: F.dist)  # noqa: E731

BYNAME = {
    "n_jobs": lit(None, 1, np.int64(1)),
    "verbose": lit(0, False, 0),
    "max_iter": lit(1, 3, 10, 50, np.int32(7)),
    "n_estimators": lit(1, 2, 3, 5, np.int64(2)),
    "max_trials": lit(5, 20, np.int64(10)),
    "n_init": lit(1, 2, "auto"),
    "random_state": lit(None, 0, 7, np.int64(3)) + new(lambda: rng(5), lambda: rng(6)),
    "cv": cvs(),
    "scoring": scorings(),
    "memory": lit(None),
    "callback": lit(None),
    "kernel": None,
    "tol": lit(1e-4, 1e-2, 1e-3, np.float32(1e-3)),
    "n_components": lit(1, 2, 3, None, np.int64(2)),
    "n_clusters": lit(2, 3, np.int32(2)),
    "n_neighbors": lit(2, 3, 5, np.int64(4)),
    "n_splits": lit(2, 3),
    "cache_size": lit(50, 200.0),
    "missing_values": lit(np.nan, -1, 0, None),
    "metric": METRIC(),
    "class_weight": lit(None, "balanced", None) + new(lambda: {0: 1.0, 1: 2.5, 2: 0.5}, lambda: {"a": 1, "b": 2.5, "c": np.float64(0.5)}),
    "metric_params": lit(None) + new(lambda: {}, lambda: {"p": 3}),
    "kernel_params": lit(None) + new(lambda: {"gamma": 0.5}),
    "monotonic_cst": lit(None) + new(lambda: [1, 0, -1, 0], lambda: np.array([0, 1, 0, 0], dtype=np.int8), lambda: {"c0": 1}),
    "sample_weight": lit(None),
    "stop_words": lit(None, "english") + new(lambda: ["the", "red"]),
    "vocabulary": lit(None) + new(lambda: {"red": 0, "blue": 1, "cat": 2}, lambda: ["red", "cat", "fish"], lambda: {"red", "cat"}),
    "hidden_layer_sizes": lit((3,), (4, 2), 5, np.int64(3)) + new(lambda: [3, 2], lambda: np.array([2, 3])),
    "importance_getter": lit("auto", "coef_", "feature_importances_") + new(lambda: F.getter, lambda: operator.attrgetter("coef_")),
    "init_size": lit(None, 30),
    "alphas": lit((0.1, 1.0, 10.0), None) + new(lambda: np.array([0.1, 1.0]), lambda: [0.5, 2.0]),
    "optimizer": lit("fmin_l_bfgs_b", None) + new(lambda: F.optim),
    "covariance_estimator": lit(None) + new(lambda: EST["LedoitWolf"](), lambda: EST["EmpiricalCovariance"](assume_centered=True)),
    "perplexity": lit(2.0, 5, np.float32(3)),
    "min_frequency": lit(None, 1, 2, 0.1, np.float64(0.2)),
    "dtype": lit(np.float64, np.float32, float, "float32") + new(lambda: np.dtype("f8"), lambda: np.int64),
}


def steps_of(name):
    return None


LBL = lambda: lit("a", 1, 2.5, None)  # noqa: E731
SPECIAL = {
    ("FunctionTransformer", "func"): lit(None) + new(lambda: np.log1p, lambda: np.sqrt, lambda: scipy.special.expit, lambda: F.double, lambda: np.abs, lambda: scipy.special.erf,
                                                     lambda: functools.partial(F.scaled, by=3.0), lambda: np.exp, lambda: functools.partial(np.power, 2.0), lambda: np.linalg.pinv, lambda: scipy.special.boxcox1p),
    ("FunctionTransformer", "inverse_func"): lit(None) + new(lambda: np.expm1, lambda: np.square, lambda: scipy.special.logit, lambda: F.halve),
    ("FunctionTransformer", "feature_names_out"): lit(None, "one-to-one") + new(lambda: F.names_out),
    ("FunctionTransformer", "kw_args"): lit(None) + new(lambda: {}),
    ("FunctionTransformer", "inv_kw_args"): lit(None) + new(lambda: {}),
    ("FunctionTransformer", "check_inverse"): lit(False),
    ("TransformedTargetRegressor", "func"): lit(None) + new(lambda: np.log1p, lambda: np.sqrt, lambda: F.double, lambda: np.cbrt, lambda: scipy.special.cbrt),
    ("TransformedTargetRegressor", "inverse_func"): lit(None) + new(lambda: np.expm1, lambda: np.square, lambda: F.halve, lambda: np.exp),
    ("TransformedTargetRegressor", "check_inverse"): lit(False),
    ("FastICA", "fun"): lit("logcosh", "exp", "cube") + new(lambda: F.g_cube),
    ("FastICA", "fun_args"): lit(None) + new(lambda: {"alpha": 1.5}),
    ("FastICA", "w_init"): lit(None),
    ("GaussianProcessClassifier", "kernel"): lit(None) + kernels(),
    ("GaussianProcessRegressor", "kernel"): lit(None) + kernels(),
    ("GaussianProcessRegressor", "alpha"): lit(1e-10, 1e-2) + new(lambda: np.full(40, 0.1)),
    ("SVC", "kernel"): lit("rbf", "linear", "poly", "sigmoid") + new(lambda: F.gram),
    ("SVR", "kernel"): lit("rbf", "linear", "poly", "sigmoid") + new(lambda: F.gram),
    ("NuSVC", "kernel"): lit("rbf", "linear", "poly") + new(lambda: F.gram),
    ("NuSVC", "nu"): lit(0.1, 0.2),
    ("NuSVR", "kernel"): lit("rbf", "linear", "poly") + new(lambda: F.gram),
    ("OneClassSVM", "kernel"): lit("rbf", "linear", "poly") + new(lambda: F.gram),
    ("KernelPCA", "kernel"): lit("linear", "rbf", "poly", "cosine") + new(lambda: F.pair_kernel),
    ("KernelRidge", "kernel"): lit("linear", "rbf", "laplacian", "polynomial") + new(lambda: F.pair_kernel, lambda: K.RBF()),
    ("Nystroem", "kernel"): lit("rbf", "linear", "poly", "laplacian") + new(lambda: F.pair_kernel),
    ("LabelPropagation", "kernel"): lit("rbf", "knn") + new(lambda: F.gram),
    ("LabelSpreading", "kernel"): lit("rbf", "knn") + new(lambda: F.gram),
    ("KernelDensity", "kernel"): lit("gaussian", "tophat", "epanechnikov", "exponential", "linear", "cosine"),
    ("KernelDensity", "metric"): lit("euclidean", "manhattan", "chebyshev", "minkowski"),
    ("KernelDensity", "metric_params"): lit(None),
    ("SimpleImputer", "strategy"): lit("mean", "median", "most_frequent", "constant") + new(lambda: F.col_mean),
    ("SimpleImputer", "fill_value"): lit(None, 0, -1.5, np.float64(2.0)),
    ("AgglomerativeClustering", "metric"): lit("euclidean", "l1", "manhattan", "cosine"),
    ("FeatureAgglomeration", "metric"): lit("euclidean", "l1", "manhattan"),
    ("FeatureAgglomeration", "pooling_func"): new(lambda: np.mean, lambda: np.max, lambda: np.median, lambda: np.sum),
    ("RANSACRegressor", "loss"): lit("absolute_error", "squared_error") + new(lambda: F.loss),
    ("RANSACRegressor", "is_data_valid"): lit(None) + new(lambda: F.valid_data),
    ("RANSACRegressor", "is_model_valid"): lit(None) + new(lambda: F.valid_model),
    ("RANSACRegressor", "min_samples"): lit(5, 0.5, 10),
    ("KNeighborsClassifier", "weights"): lit("uniform", "distance", None) + new(lambda: F.inv_weights),
    ("KNeighborsRegressor", "weights"): lit("uniform", "distance", None) + new(lambda: F.inv_weights),
    ("RadiusNeighborsClassifier", "weights"): lit("uniform", "distance", None) + new(lambda: F.inv_weights),
    ("RadiusNeighborsRegressor", "weights"): lit("uniform", "distance", None) + new(lambda: F.inv_weights),
    ("RadiusNeighborsClassifier", "outlier_label"): lit(None, "most_frequent"),
    ("RadiusNeighborsClassifier", "radius"): lit(50.0, 5, 1.0),
    ("RadiusNeighborsRegressor", "radius"): lit(50.0, 5, 1.0),
    ("KNNImputer", "metric"): lit("nan_euclidean"),
    ("KNNImputer", "weights"): lit("uniform", "distance") + new(lambda: F.inv_weights),
    ("OneHotEncoder", "feature_name_combiner"): lit("concat") + new(lambda: F.combine),
    ("OneHotEncoder", "drop"): lit(None, "first", "if_binary"),
    ("OneHotEncoder", "categories"): lit("auto"),
    ("OneHotEncoder", "max_categories"): lit(None, 2, 3),
    ("OrdinalEncoder", "unknown_value"): lit(None, -1, np.nan),
    ("OrdinalEncoder", "encoded_missing_value"): lit(np.nan, -2),
    ("OrdinalEncoder", "categories"): lit("auto"),
    ("OrdinalEncoder", "handle_unknown"): lit("error"),
    ("TargetEncoder", "categories"): lit("auto"),
    ("GridSearchCV", "refit"): lit(True, False) + new(lambda: F.first_best),
    ("RandomizedSearchCV", "refit"): lit(True, False) + new(lambda: F.first_best),
    ("GridSearchCV", "pre_dispatch"): lit("2*n_jobs", 1),
    ("RandomizedSearchCV", "pre_dispatch"): lit("2*n_jobs", 1),
    ("RandomizedSearchCV", "n_iter"): lit(1, 2),
    ("GradientBoostingClassifier", "init"): lit(None, "zero") + new(lambda: EST["DummyClassifier"](), lambda: EST["LogisticRegression"]()),
    ("GradientBoostingRegressor", "init"): lit(None, "zero") + new(lambda: EST["DummyRegressor"](), lambda: EST["LinearRegression"]()),
    ("HistGradientBoostingClassifier", "categorical_features"): lit(None) + new(lambda: [0], lambda: np.array([True, False, False, False]), lambda: [False, True, False, False]),
    ("HistGradientBoostingRegressor", "categorical_features"): lit(None) + new(lambda: [0], lambda: np.array([True, False, False, False])),
    ("HistGradientBoostingClassifier", "interaction_cst"): lit(None, "pairwise", "no_interactions") + new(lambda: [{0, 1}, {2, 3}], lambda: [[0, 1]], lambda: ((0,), (1, 2))),
    ("HistGradientBoostingRegressor", "interaction_cst"): lit(None, "pairwise", "no_interactions") + new(lambda: [{0, 1}, {2, 3}], lambda: [[0, 1]]),
    ("HistGradientBoostingClassifier", "min_samples_leaf"): lit(2, 5),
    ("HistGradientBoostingRegressor", "min_samples_leaf"): lit(2, 5),
    ("HistGradientBoostingRegressor", "quantile"): lit(0.5, 0.1),
    ("CountVectorizer", "analyzer"): lit("word", "char", "char_wb") + new(lambda: F.split, lambda: F.chars),
    ("TfidfVectorizer", "analyzer"): lit("word", "char", "char_wb") + new(lambda: F.split),
    ("HashingVectorizer", "analyzer"): lit("word", "char", "char_wb") + new(lambda: F.split),
    ("DictVectorizer", "dtype"): lit(np.float64, np.float32, np.int64),
    ("FeatureHasher", "input_type"): lit("dict"),
    ("FeatureHasher", "n_features"): lit(8, 16),
    ("HashingVectorizer", "n_features"): lit(8, 16),
    ("HashingVectorizer", "dtype"): lit(np.float64, np.float32),
    ("TfidfVectorizer", "dtype"): lit(np.float64, np.float32),
    ("MultiLabelBinarizer", "classes"): lit(None),
    ("LabelBinarizer", "neg_label"): lit(0, -1),
    ("LabelBinarizer", "pos_label"): lit(1, 2),
    ("SelectFromModel", "threshold"): lit(None, "mean", "1.25*median", 0.01, -np.inf),
    ("SelectFromModel", "max_features"): lit(None, 2) + new(lambda: F.n_feat),
    ("SelectFromModel", "norm_order"): lit(1, 2, np.inf, -np.inf),
    ("PolynomialFeatures", "degree"): lit(1, 2, 3, (1, 2)),
    ("SplineTransformer", "knots"): lit("uniform", "quantile"),
    ("KBinsDiscretizer", "n_bins"): lit(2, 3) + new(lambda: [2, 3, 2, 2]),
    ("KBinsDiscretizer", "dtype"): lit(None, np.float64, np.float32),
    ("QuantileTransformer", "n_quantiles"): lit(5, 10),
    ("PatchExtractor", "patch_size"): lit(None, (2, 2)),
    ("ClassifierChain", "order"): lit(None, "random") + new(lambda: [1, 0]),
    ("RegressorChain", "order"): lit(None, "random") + new(lambda: [1, 0]),
    ("GenericUnivariateSelect", "mode"): lit("percentile", "k_best", "fpr", "fdr", "fwe"),
    ("GenericUnivariateSelect", "param"): lit(0.5, 1, 2),
    ("SelectKBest", "k"): lit("all", 1, 2),
    ("VotingClassifier", "voting"): lit("hard", "soft"),
    ("VotingClassifier", "weights"): lit(None),
    ("VotingRegressor", "weights"): lit(None),
    ("StackingClassifier", "final_estimator"): lit(None) + new(lambda: EST["RandomForestClassifier"](n_estimators=2, random_state=0)),
    ("StackingRegressor", "final_estimator"): lit(None) + new(lambda: EST["RandomForestRegressor"](n_estimators=2, random_state=0)),
    ("DummyClassifier", "constant"): lit(None),
    ("DummyRegressor", "constant"): lit(None, 1.5),
    ("DummyRegressor", "quantile"): lit(0.5, 0.2),
    ("TunedThresholdClassifierCV", "thresholds"): lit(5, 10) + new(lambda: [0.2, 0.5]),
    ("TunedThresholdClassifierCV", "cv"): lit(None, 2, "prefit", 0.5),
    ("OutputCodeClassifier", "code_size"): lit(1.5, 2, 0.5),
    ("SequentialFeatureSelector", "n_features_to_select"): lit(1, 2, "auto", 0.5),
    ("GraphicalLassoCV", "alphas"): lit(2, 3) + new(lambda: np.array([0.1, 0.5])),
    ("LogisticRegressionCV", "Cs"): lit(2, 3) + new(lambda: [0.1, 1.0]),
    ("LogisticRegressionCV", "l1_ratios"): lit(None) + new(lambda: [0.3, 0.7]),
    ("KMeans", "init"): lit("k-means++", "random") + new(lambda: F_centers),
    ("MLPClassifier", "max_iter"): lit(3, 10),
    ("MLPRegressor", "max_iter"): lit(3, 10),
    ("TSNE", "max_iter"): lit(250),
    ("TSNE", "n_iter"): lit("deprecated"),
    ("TSNE", "method"): lit("exact", "barnes_hut"),
    ("TSNE", "n_components"): lit(2, 1),
    ("TSNE", "metric"): lit("euclidean", "manhattan", "cosine"),
    ("TSNE", "metric_params"): lit(None),
    ("Isomap", "metric"): lit("minkowski", "manhattan", "cosine"),
    ("NMF", "beta_loss"): lit("frobenius", "kullback-leibler", "itakura-saito", 1.5),
    ("LatentDirichletAllocation", "max_iter"): lit(1, 3),
    ("TheilSenRegressor", "max_subpopulation"): lit(50, 100),
    ("TheilSenRegressor", "n_subsamples"): lit(None, 10),
    ("GammaRegressor", "solver"): lit("lbfgs", "newton-cholesky"),
    ("DBSCAN", "metric_params"): lit(None) + new(lambda: {}),
    ("OPTICS", "metric_params"): lit(None),
    ("BisectingKMeans", "init"): lit("k-means++", "random"),
    ("Pipeline", "steps"): [],
    ("RBFSampler", "gamma"): lit("scale", 0.5),
    ("IterativeImputer", "estimator"): lit(None) + new(lambda: EST["BayesianRidge"](), lambda: EST["Ridge"]()),
}
F_centers = None
for _n in ("SelectFdr", "SelectFpr", "SelectFwe", "SelectKBest", "SelectPercentile", "GenericUnivariateSelect"):
    def _scorefns():
        from sklearn import feature_selection as fs

        return new(lambda: fs.f_classif, lambda: fs.chi2, lambda: fs.f_regression, lambda: fs.mutual_info_classif, lambda: F.feature_score,
                   lambda: functools.partial(fs.mutual_info_classif, n_neighbors=2, random_state=0), lambda: functools.partial(fs.f_regression, center=False))

    SPECIAL[_n, "score_func"] = _scorefns()
for _n in TEXT:
    SPECIAL[_n, "input"] = lit("content")
    SPECIAL[_n, "tokenizer"] = lit(None) + new(lambda: F.split, lambda: F.chars)
    SPECIAL[_n, "preprocessor"] = lit(None) + new(lambda: F.lower)
    SPECIAL[_n, "strip_accents"] = lit(None, "ascii", "unicode")
    SPECIAL[_n, "encoding"] = lit("utf-8", "latin-1")
    SPECIAL[_n, "ngram_range"] = lit((1, 1), (1, 2), (2, 3))
    SPECIAL[_n, "max_df"] = lit(1.0, 0.9)
    SPECIAL[_n, "min_df"] = lit(1, 0.0)
    SPECIAL[_n, "token_pattern"] = lit(r"(?u)\b\w\w+\b", None, r"\w+")
del SPECIAL["KMeans", "init"]
SKIP_PARAMS = {"estimator", "base_estimator", "estimators", "regressor", "transformer", "steps", "transformers", "param_grid", "param_distributions", "transformer_list", "remainder",
               "dictionary"}


def interval(iv):
    import numbers

    lo = iv.left if iv.left is not None else -np.inf
    hi = iv.right if iv.right is not None else np.inf
    if iv.type is numbers.Integral:
        raw = [1, 2, 3, 5, 0, 4, 10]
        vals = [v for v in raw if v in iv][:4]
        if not vals:
            vals = [int(lo if iv.closed in ("left", "both") else lo + 1)]
        return lit(*vals, np.int64(vals[-1]), np.int32(vals[0]), np.uint8(vals[0]) if 0 <= vals[0] < 255 else vals[0])
    raw = [0.5, 1.0, 0.1, 2.0, 0.9, 0.01, 10.0]
    if iv.type is numbers.Real:
        raw.append(1)
    vals = [v for v in raw if v in iv][:5]
    if not vals:
        mid = (max(lo, -1.0) + min(hi, 1.0)) / 2
        vals = [mid]
    return lit(*vals, np.float64(vals[0]), np.float32(vals[0]))


@functools.lru_cache(None)
def candidates(name, p):
    """Candidate thunks of one parameter of a class."""
    if (name, p) in SPECIAL:
        return SPECIAL[name, p]
    if p in SKIP_PARAMS:
        return []
    if BYNAME.get(p) is not None:
        base = BYNAME[p]
        if p in ("n_components", "n_clusters", "cv", "class_weight", "metric", "alphas", "n_neighbors", "missing_values", "dtype", "tol", "max_iter", "n_estimators", "random_state", "n_init"):
            return base
        return base
    cs = getattr(EST[name], "_parameter_constraints", {}).get(p)
    if cs is None or cs == "no_validation":
        return []
    out = []
    for c in cs:
        if isinstance(c, pv.Interval):
            out += interval(c)
        elif isinstance(c, pv.StrOptions):
            dep = getattr(c, "deprecated", set())
            out += lit(*sorted(o for o in c.options if o not in dep and o not in ("precomputed", "warn", "deprecated", "precomputed_nearest_neighbors")))
        elif isinstance(c, pv.Options):
            out += lit(*sorted((o for o in c.options), key=repr))
        elif c == "boolean":
            out += lit(True, False, np.True_, np.bool_(False))
        elif c is None:
            out += lit(None)
        elif c == "random_state":
            out += BYNAME["random_state"]
        elif c == "verbose":
            out += lit(0)
        elif c == "cv_object":
            out += cvs()
    return out


@functools.lru_cache(None)
def tunable(name):
    sig = inspect.signature(EST[name].__init__).parameters
    return [p for p in sorted(sig) if p != "self" and len(candidates(name, p)) > 0]


# --------------------------------------------------------------------------
# building


def clf(**kw):
    return EST["LogisticRegression"](**kw)


class Build:
    """Builds an estimator from a node; remembers what it is made of."""

    def __init__(self):
        self.names = []
        self.set = []
        self.need_df = False

    def sub(self, kids, i, slot, default):
        if i < len(kids):
            return self.node(kids[i], POOLS[slot])
        return default()

    def node(self, nd, pool, depth=0):
        i, ps, kids = nd
        name = pool[i % len(pool)]
        self.names.append(name)
        est = self.base(name, kids)
        real = type(est).__name__
        tun = tunable(real) if real in EST else []
        for pi, ci in ps:
            if not tun:
                break
            p = tun[pi % len(tun)]
            c = candidates(real, p)
            v = c[ci % len(c)]()
            self.set.append(f"{real}.{p}={v!r:.40}")
            est.set_params(**{p: v})
        return est

    def base(self, name, kids):
        s = self.sub
        C = EST.get(name)
        tree = lambda: EST["DecisionTreeClassifier"](max_depth=3, random_state=0)  # noqa: E731
        treer = lambda: EST["DecisionTreeRegressor"](max_depth=3, random_state=0)  # noqa: E731
        scal = lambda: EST["StandardScaler"]()  # noqa: E731
        n = max(1, min(3, len(kids)))
        if name == "Pipeline":
            steps = [(f"s{i}", s(kids, i, "t", scal)) for i in range(max(0, len(kids) - 1))]
            k = len(kids) - 1
            slot = ["c", "r", "t", "k"][(kids[k][0] // 7) % 4] if kids else "c"
            steps.append(("last", s(kids, max(k, 0), slot, clf)))
            if kids and kids[0][0] % 5 == 0:
                steps.insert(0, ("pass", "passthrough" if kids[0][0] % 2 else None))
            return C(steps)
        if name == "FeatureUnion":
            tl = [(f"u{i}", s(kids, i, "t", scal)) for i in range(n)]
            if kids and kids[0][0] % 5 == 0:
                tl.append(("x", "drop" if kids[0][0] % 2 else "passthrough"))
            return C(tl, transformer_weights={"u0": 2.0} if kids and kids[0][0] % 3 == 0 else None)
        if name == "ColumnTransformer":
            sels = self.selectors()
            h = kids[0][0] if kids else 0
            tr = [(f"c{i}", s(kids, i, "t", scal), sels[(h + i) % len(sels)]()) for i in range(n)]
            self.need_df |= any((h + i) % len(sels) >= len(sels) - 5 for i in range(n))
            if h % 5 == 0:
                tr.append(("d", "drop" if h % 2 else "passthrough", [3]))
            return C(tr, remainder=["drop", "passthrough", scal()][h % 3])
        if name in ("VotingClassifier", "StackingClassifier", "VotingRegressor", "StackingRegressor"):
            r = name.endswith("Regressor")
            es = [(f"e{i}", s(kids, i, "r" if r else "c", treer if r else tree)) for i in range(n)]
            if kids and kids[0][0] % 7 == 0 and n > 1:
                es[0] = ("e0", "drop")
            kw = {"weights": np.arange(1, n + 1) if not (kids and kids[0][0] % 7 == 0 and n > 1) else None} if name.startswith("Voting") else {}
            if name == "StackingClassifier" or name == "StackingRegressor":
                kw["cv"] = 2
            return C(es, **kw)
        if name in ("GridSearchCV", "RandomizedSearchCV"):
            h = kids[0][0] if kids else 0
            slot = ["c", "r", "c"][h % 3]
            e = s(kids, 0, slot, clf)
            ps = [p for p in tunable(type(e).__name__) if len(candidates(type(e).__name__, p)) > 1 and p not in ("random_state", "n_jobs", "verbose", "cv", "kernel", "scoring")]
            p = ps[(h // 3) % len(ps)] if ps else None
            vals = [c() for c in candidates(type(e).__name__, p)[:2]] if p else []
            if name == "GridSearchCV":
                grid = {p: vals} if p else {}
                return C(e, [grid, {}] if h % 4 == 1 else grid, cv=2)
            dist = {p: vals} if p else {}
            if h % 5 == 0 and hasattr(e, "alpha") and isinstance(e.alpha, float):
                dist = {"alpha": [scipy.stats.uniform(0.1, 1), scipy.stats.loguniform(1e-2, 1)][h % 2]}
            return C(e, dist, n_iter=2, cv=2, random_state=0)
        if name == "@halving":
            from sklearn.experimental import enable_halving_search_cv  # noqa
            from sklearn.model_selection import HalvingGridSearchCV

            return HalvingGridSearchCV(s(kids, 0, "w", clf), {}, cv=2, random_state=0)
        if name == "SparseCoder":
            return C(np.eye(4)[: 2 + len(kids)])
        if name in META_C:
            slot = {"CalibratedClassifierCV": "c", "SelfTrainingClassifier": "proba", "FixedThresholdClassifier": "proba", "TunedThresholdClassifierCV": "proba", "AdaBoostClassifier": "w"}.get(name, "c")
            kw = {}
            if name in ("AdaBoostClassifier", "BaggingClassifier"):
                kw["n_estimators"] = 2
            if name == "CalibratedClassifierCV":
                kw["cv"] = 2
            if name == "AdaBoostClassifier":
                kw["algorithm"] = "SAMME"
            key = "base_estimator" if name in ("ClassifierChain", "SelfTrainingClassifier") else "estimator"
            return C(**{key: s(kids, 0, slot, clf)}, **kw)
        if name in META_R:
            if name == "TransformedTargetRegressor":
                return C(regressor=s(kids, 0, "r", EST["LinearRegression"]), transformer=s(kids, 1, "t", scal) if len(kids) > 1 else None)
            kw = {"n_estimators": 2} if name in ("AdaBoostRegressor", "BaggingRegressor") else {}
            if name == "RANSACRegressor":
                kw["min_samples"] = 0.5
            key = "base_estimator" if name == "RegressorChain" else "estimator"
            return C(**{key: s(kids, 0, {"AdaBoostRegressor": "wr"}.get(name, "r"), EST["LinearRegression"])}, **kw)
        if name in SELECT:
            e = s(kids, 0, "lin", EST["Ridge"])
            kw = {"cv": 2} if name == "SequentialFeatureSelector" else {}
            return C(e, **kw)
        if name == "@textpipe":
            v = EST[TEXT[(kids[0][0] if kids else 0) % 3]]()
            if isinstance(v, EST["HashingVectorizer"]):
                v.set_params(n_features=16)
            return EST["Pipeline"]([("v", v), ("tf", EST["TfidfTransformer"]()), ("c", s(kids, 0, "c", clf))])
        if name == "@textct":
            ct = EST["ColumnTransformer"]([("t", EST["TfidfVectorizer"](ngram_range=(1, 2)), "text"), ("o", EST["OneHotEncoder"](handle_unknown="ignore"), ["cat"]),
                                           ("n", EST["Pipeline"]([("i", EST["SimpleImputer"]()), ("s", s(kids, 1, "t", scal))]), ["c0", "c1"])])
            return EST["Pipeline"]([("ct", ct), ("c", s(kids, 0, "c", clf))])
        if name == "@dictpipe":
            return EST["Pipeline"]([("v", EST["DictVectorizer"]()), ("c", s(kids, 0, "c", clf))])
        if name == "@nested":
            inner = EST["Pipeline"]([("u", EST["FeatureUnion"]([("a", s(kids, 0, "t", scal)), ("b", EST["FunctionTransformer"](np.log1p))])), ("c", s(kids, 1, "c", clf))])
            return EST["GridSearchCV"](EST["BaggingClassifier"](inner, n_estimators=2, random_state=0), {"estimator__c": [inner.named_steps["c"], tree()]}, cv=2)
        base = {}
        if name in ("TSNE",):
            base = dict(perplexity=3.0, max_iter=250)
        elif name in ("MLPClassifier", "MLPRegressor"):
            base = dict(max_iter=5, hidden_layer_sizes=(4,))
        elif name in ("TheilSenRegressor",):
            base = dict(max_subpopulation=50)
        elif name in ("RadiusNeighborsClassifier", "RadiusNeighborsRegressor"):
            base = dict(radius=50.0)
        elif name in ("QuantileTransformer",):
            base = dict(n_quantiles=10)
        elif name in ("GaussianRandomProjection", "SparseRandomProjection"):
            base = dict(n_components=2)
        elif name in ("SelectKBest",):
            base = dict(k=2)
        elif name == "TruncatedSVD":
            base = dict(n_components=2)
        elif name in ("CCA", "PLSCanonical", "PLSSVD"):
            base = dict(n_components=1)
        elif name in ("NuSVC",):
            base = dict(nu=0.1)
        elif name in ("GraphicalLassoCV",):
            base = dict(alphas=2)
        elif name == "HashingVectorizer":
            base = dict(n_features=16)
        elif name == "FeatureHasher":
            base = dict(n_features=8)
        elif name == "HistGradientBoostingClassifier" or name == "HistGradientBoostingRegressor":
            base = dict(min_samples_leaf=2, max_iter=5)
        elif name == "LassoLarsIC":
            base = dict(noise_variance=1.0)
        elif name == "SpectralBiclustering":
            base = dict(n_best=1, n_components=2, n_clusters=2)
        sig = inspect.signature(C.__init__).parameters
        if "n_estimators" in sig and "n_estimators" not in base:
            base["n_estimators"] = 3
        if "n_clusters" in sig and "n_clusters" not in base:
            base["n_clusters"] = 3
        return C(**base)

    @staticmethod
    def selectors():
        from sklearn.compose import make_column_selector

        return [lambda: [0, 1], lambda: [2], lambda: slice(0, 2), lambda: slice(0, 4, 2), lambda: [True, False, True, False], lambda: np.array([1, 3]), lambda: [-1, 0],
                lambda: np.array([True, False, False, True]), lambda: (0, 3), lambda: slice(-2, None), lambda: ["c0", "c2"], lambda: "c1", lambda: slice("c0", "c2"),
                lambda: make_column_selector(pattern="c[01]"), lambda: make_column_selector(dtype_include=np.number)]


# --------------------------------------------------------------------------
# data

WORDS = ["red", "blue", "cat", "dog", "Fish", "the", "über", "naïve", "run"]
XFORMS = ["f8", "f8", "F", "f4", "int", "csr", "csc", "df", "list", "strided", "nan", "coo_array", "pos", "csr32"]
YFORMS = ["multi", "binary", "str", "bool", "float", "neg", "obj", "series"]


def n_rows(d):
    return 40


def make_data(est, b, d):
    """-> (X, y, Xt): training data and held-out input. d = {seed, x, y}"""
    rs = np.random.RandomState(d["seed"])
    names = b.names
    n, m, k = 40, 12, 4
    root = names[0]
    name = type(est).__name__
    final = est
    while type(final).__name__ == "Pipeline" and not isinstance(final.steps[-1][1], (str, type(None))):
        final = final.steps[-1][1]
    xf, yf = d["x"], d["y"]
    lab = rs.randint(0, 3, n + m)
    lab[:6] = [0, 1, 2, 0, 1, 2]
    if yf == "binary" or yf == "bool":
        lab = lab % 2
    # ---- inputs which are not matrices
    if root in TEXT or root == "@textpipe":
        docs = [" ".join(WORDS[j] for j in rs.randint(0, len(WORDS), 6)) + (" %d" % lab[i]) for i in range(n + m)]
        X = docs if xf != "df" else np.array(docs, dtype=object)
        return X[:n], target(final, lab[:n], yf, rs, n), X[n:]
    if root in DICTS or root == "@dictpipe":
        X = [{"a": float(rs.rand()), WORDS[rs.randint(9)]: 1, "b": WORDS[rs.randint(9)] if root != "FeatureHasher" or xf == "df" else 2.0, "l": float(lab[i])} for i in range(n + m)]
        return X[:n], target(final, lab[:n], yf, rs, n), X[n:]
    if name == "LabelEncoder" or name == "LabelBinarizer":
        y = labels(lab, yf if yf != "series" else "str")
        return y[:n], None, y[n:]
    if name == "MultiLabelBinarizer":
        X = [tuple(WORDS[j] for j in rs.choice(9, rs.randint(0, 4), replace=False)) for _ in range(n + m)]
        return X[:n] + [tuple(WORDS)], None, X[n:]
    if name == "IsotonicRegression":
        X = rs.rand(n + m) * 10
        return X[:n], X[:n] + rs.randn(n), X[n:]
    if name == "PatchExtractor":
        X = rs.rand(4, 6, 5)
        return X[:2], None, X[2:]
    if name == "KernelCenterer":
        A = rs.rand(n, 3)
        return A @ A.T, None, rs.rand(m, 3) @ A.T
    if name in ("OneHotEncoder", "OrdinalEncoder", "TargetEncoder"):
        import pandas as pd

        raw = rs.randint(0, 3, (n + m, 2))
        if xf in ("f8", "F", "f4", "nan"):
            X = raw.astype("f8" if xf != "f4" else "f4")
            if xf == "nan":
                X[::7, 0] = np.nan
        elif xf in ("int", "csr", "strided"):
            X = raw
        else:
            X = np.array(["low", "mid", "hi"], dtype=object)[raw]
            if xf == "csc":
                X[::5, 1] = None
            if xf == "list":
                X[::5, 1] = np.nan
            if xf == "pos":
                X = X.astype("U")
            if xf == "df":
                X = pd.DataFrame(X, columns=["u", "v"])
            if xf == "csr32":
                X = pd.DataFrame(X, columns=["u", "v"]).astype("category")
        return X[:n], target(final, lab[:n], yf, rs, n), X[n:]
    if root == "@textct":
        import pandas as pd

        X = pd.DataFrame({"text": [" ".join(WORDS[j] for j in rs.randint(0, len(WORDS), 5)) for _ in range(n + m)], "cat": np.array(["x", "y"], dtype=object)[rs.randint(0, 2, n + m)],
                          "c0": rs.rand(n + m), "c1": np.where(rs.rand(n + m) < 0.2, np.nan, rs.rand(n + m))})
        return X.iloc[:n], target(final, lab[:n], yf, rs, n), X.iloc[n:]
    # ---- matrices
    X = rs.randn(n + m, k) + lab[:, None] * np.array([1.5, -1.0, 0.5, 0.0])
    tags = {}
    try:
        tags = est._get_tags()
    except Exception:
        pass
    positive = tags.get("requires_positive_X") or xf == "pos" or (d["seed"] % 3 == 0 and xf in ("f8", "F", "df", "csr")) or any(
        t in names for t in ("AdditiveChi2Sampler", "ComplementNB", "MultinomialNB", "CategoricalNB", "NMF", "MiniBatchNMF", "LatentDirichletAllocation", "SkewedChi2Sampler")) or any("chi2" in str(getattr(est, "score_func", "")) for _ in (0,))
    if positive:
        X = np.abs(X)
    if name == "CategoricalNB" or "CategoricalNB" in names or xf == "int":
        X = np.round(np.abs(X) * 2)
        X = np.minimum(X, 3)
        X[:4] = np.arange(4)[:, None]
        X[4] = 3
    y = target(final, lab[:n], yf, rs, n, X[:n], tags, any(t in names for t in ("GammaRegressor", "PoissonRegressor", "TweedieRegressor")))
    if tags.get("pairwise") and name != "KernelCenterer":
        A = np.abs(X[:n])
        D = scipy.spatial.distance.squareform(scipy.spatial.distance.pdist(A))
        return D, y, scipy.spatial.distance.cdist(np.abs(X[n:]), A)
    X = form(X, "df" if b.need_df else xf, bool(tags.get("allow_nan")))
    return X[:n], y, X[n:]


def form(X, xf, nan_ok):
    if xf == "F":
        return np.asfortranarray(X)
    if xf == "f4":
        return X.astype("f4")
    if xf == "int":
        return X.astype("i8")
    if xf in ("csr", "csc", "coo_array", "csr32"):
        S = np.where(np.abs(X) < 0.5, 0, X)
        if xf == "coo_array":
            return sp.csr_array(S)
        if xf == "csr32":
            return sp.csr_matrix(S.astype("f4"))
        return (sp.csr_matrix if xf == "csr" else sp.csc_matrix)(S)
    if xf == "df":
        import pandas as pd

        return pd.DataFrame(X, columns=["c0", "c1", "c2", "c3"])
    if xf == "strided":
        Z = np.zeros((X.shape[0], X.shape[1] * 2))
        Z[:, ::2] = X
        return Z[:, ::2]
    if xf == "nan" and nan_ok:
        X = X.copy()
        X[::9, 1] = np.nan
        return X
    if xf == "list":
        return X.tolist()
    return X


def labels(lab, yf):
    if yf == "str":
        return np.array(["a", "b", "c"])[lab]
    if yf == "obj":
        return np.array(["a", "b", "c"], dtype=object)[lab]
    if yf == "bool":
        return lab.astype(bool)
    if yf == "float":
        return lab.astype("f8")
    if yf == "neg":
        return lab - 1
    if yf == "series":
        import pandas as pd

        return pd.Series(lab, name="target")
    return lab


def target(est, lab, yf, rs, n, X=None, tags=None, pos=False):
    tags = tags or {}
    inner = est
    for a in ("estimator", "regressor", "base_estimator"):
        v = getattr(inner, a, None)
        inner = inner if v is None or isinstance(v, str) else v
    cl = is_classifier(est) or is_classifier(inner)
    rg = is_regressor(est) or is_regressor(inner) or type(est).__name__ in ("PLSSVD", "PLSCanonical", "CCA", "PLSRegression")
    if rg:
        y = lab + 0.1 * rs.randn(n)
        y = np.abs(y) + 0.1 if tags.get("requires_positive_y") or pos or yf in ("neg", "binary") else y
        if tags.get("multioutput_only") or type(est).__name__ in ("PLSSVD", "PLSCanonical", "CCA") or (tags.get("multioutput") and yf in ("str", "obj")):
            return np.c_[y, y * 2 + 1]
        if yf == "bool":
            return y.astype("f4")
        if yf == "series":
            import pandas as pd

            return pd.Series(y)
        return y
    if cl:
        if type(est).__name__ in ("MultiOutputClassifier",):
            return np.c_[labels(lab, yf if yf not in ("series",) else "multi"), labels(lab[::-1], yf if yf not in ("series",) else "multi")]
        if type(est).__name__ == "ClassifierChain" or (tags.get("multilabel") and yf in ("neg",)):
            return np.c_[lab == 0, lab == 1].astype(int)
        if tags.get("multioutput") and yf == "obj":
            return np.c_[lab, lab[::-1]]
        if tags.get("binary_only") or type(est).__name__ in ("FixedThresholdClassifier", "TunedThresholdClassifierCV"):
            return labels(lab % 2, yf)
        if type(est).__name__ == "SelfTrainingClassifier" or type(est).__name__ in ("LabelSpreading", "LabelPropagation"):
            lab = lab.copy()
            lab[10:20] = -1
            return lab
        return labels(lab, yf)
    return labels(lab, "multi" if yf in ("str", "obj", "series") else yf)


def clone_data(x):
    # keeps strides and order
    if isinstance(x, np.ndarray) and x.dtype != object:
        if x.ndim == 2 and not x.flags.forc:
            z = np.zeros((x.shape[0], x.shape[1] * 2), dtype=x.dtype)
            z[:, ::2] = x
            return z[:, ::2]
        return x.copy(order="K")
    return copy.deepcopy(x)


METHODS = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "score_samples", "apply", "decision_path", "kneighbors", "radius_neighbors",
           "leaf_apply", "mahalanobis", "error_norm"]


def call(fn, *a, **kw):
    """Each call gets its own copy of the data (some estimators work in place) and the same global random state."""
    np.random.seed(7)
    try:
        return ("ok", fn(*[clone_data(x) for x in a], **kw))
    except Exception as e:
        return ("raise", type(e).__name__)


def outputs(est, X, y, Xt):
    """Deterministic record of what the estimator answers."""
    out = {}
    inputs = [("held-out", Xt), ("training", X)]
    try:
        one = Xt[:1] if not hasattr(Xt, "iloc") else Xt.iloc[:1]
        inputs.append(("single", one))
    except Exception:
        pass
    if isinstance(Xt, np.ndarray) and Xt.ndim == 2 and Xt.dtype.kind == "f":
        inputs.append(("f4", Xt.astype("f4")))
        inputs.append(("sparse", sp.csr_matrix(np.nan_to_num(Xt))))
    if sp.issparse(Xt):
        inputs.append(("dense", Xt.toarray()))
    for what, Z in inputs:
        for m in METHODS:
            if what not in ("held-out",) and m in ("predict_log_proba", "decision_path", "radius_neighbors"):
                continue
            try:
                f = getattr(est, m)
            except AttributeError:
                continue
            r = call(f, Z)
            out[m, what] = r
            if m == "transform" and what == "held-out" and r[0] == "ok" and hasattr(est, "inverse_transform"):
                out["inverse_transform", what] = call(est.inverse_transform, r[1])
            if m == "predict" and what == "held-out":
                ps = ()
                try:
                    ps = inspect.signature(est.predict).parameters
                except Exception:
                    pass
                if "return_std" in ps:
                    out["predict_std", what] = call(est.predict, Z, return_std=True)
    for m in ("get_feature_names_out", "get_support", "get_n_leaves", "get_depth", "get_precision", "get_covariance"):
        try:
            f = getattr(est, m)
        except AttributeError:
            continue
        out[m, ""] = call(f)
    for m in ("staged_predict", "staged_decision_function"):
        try:
            f = getattr(est, m)
        except AttributeError:
            continue
        out[m, ""] = call(lambda: [a for a in f(Xt)])
    for m in ("sample",):
        if hasattr(est, m):
            out[m, ""] = call(est.sample, 3)
    return out


def fit(est, X, y, how=0):
    """Fit as the estimator wants it; how selects partial_fit / sample weights."""
    if type(est).__name__ in ("LabelEncoder", "LabelBinarizer", "MultiLabelBinarizer"):
        return est.fit(X)
    if how == 1 and hasattr(est, "partial_fit"):
        k = len(X) // 2 if not sp.issparse(X) else X.shape[0] // 2
        cut = lambda a, s: a.iloc[s] if hasattr(a, "iloc") else a[s]  # noqa: E731
        kw = {"classes": np.unique(y)} if "classes" in inspect.signature(est.partial_fit).parameters else {}
        for i, s in enumerate((slice(0, k), slice(k, None))):
            est.partial_fit(cut(X, s), None if y is None else cut(y, s), **(kw if i == 0 else {}))
        return est
    if how == 2:
        try:
            ok = "sample_weight" in inspect.signature(est.fit).parameters
        except Exception:
            ok = False
        if ok:
            return est.fit(X, y, sample_weight=np.arange(1, len(y) + 1) / 7.0)
    return est.fit(X, y)
