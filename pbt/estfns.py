"""Module-level functions used as hyper-parameters."""
import numpy as np


def dist(a, b):
    return float(np.abs(np.asarray(a) - np.asarray(b)).sum())


def pair_kernel(a, b):
    return float(np.dot(a, b))


def gram(X, Y):
    return np.asarray(X @ Y.T)


def inv_weights(d):
    return 1.0 / (1.0 + np.asarray(d))


def g_cube(x):
    return x**3, (3 * x**2).mean(axis=-1)


def double(X):
    return X * 2


def halve(X):
    return X / 2


def scaled(X, by=1.0):
    return X * by


def names_out(est, names):
    return np.asarray([f"f_{i}" for i in range(len(names))], dtype=object)


def split(text):
    return text.split()


def chars(text):
    return list(text)


def lower(text):
    return text.lower()


def score(est, X, y=None):
    return 0.5


def first_best(cv_results):
    return 0


def col_mean(x):
    return np.mean(np.asarray(x, dtype=float))


def feature_score(X, y):
    X = X.toarray() if hasattr(X, "toarray") else np.asarray(X)
    return np.abs(X.astype(float)).sum(axis=0)


def loss(y, p):
    return np.abs(y - p) if np.ndim(y) == 1 else np.abs(y - p).sum(axis=1)


def valid_data(X, y):
    return True


def valid_model(m, X, y):
    return True


def getter(est):
    return getattr(est, "coef_", getattr(est, "feature_importances_", None))


def optim(obj, theta, bounds):
    return theta, obj(theta, eval_gradient=False)


def combine(feature, category):
    return f"{feature}={category}"


def n_feat(X):
    return 2


def decode(x):
    return str(x)
