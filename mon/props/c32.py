"""C32: nonlinear effect plots show parent-adjusted means of each replicate."""
import numpy as np
import pandas as pd
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from sklearn.discriminant_analysis import LinearDiscriminantAnalysis
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import PolynomialFeatures, StandardScaler
import lingam
from lingam.bootstrap import BootstrapResult
from lingam.utils import visualize_nonlinear_causal_effect

from mon import gen, oracle

RULE = (
    "frames of 2-7 variables (numeric, integer and categorical covariates, permuted columns and row labels), single graphs and replicate collections with and without recorded resamples, unequal resamples, "
    "five regressors and four classifiers, default and given grids and percentiles, scatter and box plots, new and used figures; every drawn point, line and box is recomputed from a separately trained "
    "estimator; distinct by (data, graphs, pair, options)"
)
REQUIRED = {"points": 100, "percentile-lines": 200, "boxes": 60, "classes": 30, "grid": 100, "labels": 100, "input-kept": 100, "trained-on-replicate": 150, "trained-columns": 150, "figure": 100}
SLOW_FIRST = []


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([30, 60, 200])), "d": int(r.choice([2, 3, 4, 5, 7])), "src": ["matrix", "result", "result", "noindex", "uneven", "real"][i % 6], "S": int(r.choice([1, 2, 5, 9])) if i % 13 != 7 else 70,
                "grid": ["default", "given", "unsorted", "single", "ints"][i % 5], "pct": i % 3 == 1, "box": i % 4 == 3, "fig": ["none", "empty", "used"][i % 3], "cats": i % 2 == 1, "ints": i % 4 == 2,
                "density": float(r.choice([0.3, 0.7, 1.0]))}

    return gen.spread(seed, tier, [("continuous", 130, 1500, f), ("discrete", 60, 700, f)])


def regressor(k):
    return [LinearRegression, lambda: Ridge(1.0), lambda: make_pipeline(StandardScaler(), PolynomialFeatures(2), Ridge(0.1)), lambda: KNeighborsRegressor(3), Cosine][k]()


def classifier(k):
    return [GaussianNB, lambda: KNeighborsClassifier(4), LinearDiscriminantAnalysis, Counter][k]()


class Cosine:
    """user-written regressor"""

    def _f(self, X):
        Z = np.asarray(X, float)
        return np.column_stack([np.ones(len(Z)), Z, np.cos(Z)])

    def fit(self, X, y):
        F = self._f(X)
        self.w = np.linalg.solve(F.T @ F + 0.1 * np.eye(F.shape[1]), F.T @ np.asarray(y, float))
        return self

    def predict(self, X):
        return self._f(X) @ self.w


class Counter:
    """user-written classifier with its own class order"""

    _estimator_type = "classifier"

    def fit(self, X, y):
        Z, y = np.asarray(X, float), np.asarray(y)
        self.classes_ = np.array(sorted(set(y), reverse=True))
        self.mu = np.array([Z[y == c].mean(0) for c in self.classes_])
        return self

    def predict_proba(self, X):
        D = ((np.asarray(X, float)[:, None] - self.mu[None]) ** 2).sum(2)
        P = 1 / (1 + D)
        return P / P.sum(1, keepdims=True)


class Logged:
    """records what the estimator is trained on"""

    def __init__(self, inner, log):
        self.inner, self.log = inner, log
        if hasattr(inner, "_estimator_type"):
            self._estimator_type = inner._estimator_type

    def __sklearn_tags__(self):
        from sklearn.utils import get_tags
        return get_tags(self.inner)

    def fit(self, X, y):
        self.log.append((list(X.columns), np.asarray(X, float).copy(), np.asarray(y).copy()))
        self.inner.fit(X, y)
        return self

    def __getattr__(self, k):
        if k in ("inner", "log"):
            raise AttributeError(k)
        return getattr(self.inner, k)


def make(rng, c, discrete):
    n, d = c["n"], c["d"]
    B, order = gen.dag(rng, d, c["density"])
    Z = np.zeros((n, d))
    for i in order:
        Z[:, i] = np.tanh(Z) @ B[i] + gen.noise(rng, "laplace", n)
    names = [f"V{k}" for k in rng.permutation(d)]
    cause, effect = rng.choice(d, 2, replace=False)
    X = pd.DataFrame(Z, columns=names)
    cats = []
    for k in range(d):
        if k in (cause, effect):
            continue
        if c["cats"] and rng.rand() < 0.5:
            X[names[k]] = pd.Categorical(np.array(["lo", "mid", "hi"])[np.digitize(Z[:, k], np.quantile(Z[:, k], [0.3, 0.7]))])
            cats.append(k)
    if c["ints"]:
        X[names[cause]] = np.round(Z[:, cause] * 4).astype(int)
    if discrete:
        lab = np.digitize(Z[:, effect], np.quantile(Z[:, effect], [0.4, 0.8])) if rng.rand() < 0.6 else (Z[:, effect] > np.median(Z[:, effect])).astype(int)
        X[names[effect]] = pd.Categorical(lab if rng.rand() < 0.5 else np.array(["c", "a", "b"])[lab])
        if rng.rand() < 0.3:
            X[names[effect]] = X[names[effect]].cat.add_categories(["never"] if isinstance(X[names[effect]].cat.categories[0], str) else [9])
    if rng.rand() < 0.5:
        X.index = rng.permutation(n) + 7
    return X, names, int(cause), int(effect), B


def graphs(rng, c, X, names, B, cause, effect):
    n, d = len(X), c["d"]
    if c["src"] == "matrix":
        f = rng.randint(3)
        return (B if f == 0 else B.tolist() if f == 1 else pd.DataFrame(B, columns=names, index=names)), [B], [np.arange(n)]
    S = c["S"]
    A = []
    for _ in range(S):
        G = gen.dag(rng, d, c["density"])[0] if rng.rand() < 0.7 else B.copy()
        if rng.rand() < 0.3:
            G[cause, effect] = 0.4  # the effect listed as a parent of the cause is no covariate
            G[effect, cause] = 0
        if rng.rand() < 0.3:
            G[cause] *= 10.0 ** rng.uniform(-9, -2, d)  # faint, but parents all the same
        if rng.rand() < 0.2:
            i, j = rng.choice(d, 2, replace=False)
            G[i, j] = G[j, i] = np.nan
        A.append(G)
    idx = None
    if c["src"] == "result":
        idx = rng.randint(0, n, (S, n))
    elif c["src"] == "uneven":
        idx = [rng.randint(0, n, int(rng.randint(n // 2, n))) for _ in range(S)]
    elif c["src"] == "real":
        Z = pd.DataFrame({k: np.asarray(X[k].cat.codes if str(X[k].dtype) == "category" else X[k], float) for k in names}) + rng.randn(n, d) * 1e-3
        np.random.seed(rng.randint(2**31 - 1))
        res = lingam.DirectLiNGAM().bootstrap(Z, n_sampling=min(S, 3))
        return res, list(res.adjacency_matrices_), [np.asarray(v) for v in res.resampled_indices_]
    T = [np.zeros((d, d))] * S
    res = BootstrapResult(np.array(A) if rng.rand() < 0.5 else A, T, idx)
    return res, A, [np.arange(n)] * S if idx is None else [np.asarray(v) for v in idx]


def dummies(F, ref):
    out = {}
    for k in F.columns:
        if str(ref[k].dtype) == "category":
            for l in ref[k].cat.categories:
                out[f"{k}_{l}"] = (np.asarray(F[k]) == l).astype(float)
        else:
            out[k] = np.asarray(F[k], float)
    return pd.DataFrame(out)


def run(m, rng, c, discrete):
    X, names, cause, effect, B = make(rng, c, discrete)
    arg, A, idx = graphs(rng, c, X, names, B, cause, effect)
    S, n = len(A), len(X)
    k = int(rng.randint(4 if discrete else 5))
    log = []
    new = classifier if discrete else regressor
    est = Logged(new(k), log)
    kw = {}
    x = np.asarray(X[names[cause]], float)
    if c["grid"] == "default":
        grid = np.linspace(x.min(), x.max(), 10)
        if len(np.unique(grid)) < 10:
            m.skip("constant-cause")
            return
    else:
        grid = {"given": np.linspace(-2, 2, 5) + rng.rand(), "unsorted": rng.permutation(np.linspace(-3, 3, 6)) + rng.rand(), "single": np.array([0.5]), "ints": np.array([-1, 0, 2])}[c["grid"]]
        kw["cause_positions"] = grid.tolist() if rng.rand() < 0.5 else grid.copy()
    pct = [95, 50, 5]
    if c["pct"]:
        pct = sorted(rng.choice(np.arange(0, 101), 3, replace=False).tolist(), reverse=bool(rng.randint(2)))
        if rng.rand() < 0.3:
            pct = [100, 33.3, 0]
        kw["percentile"] = list(pct)
    if c["src"] == "matrix":
        pct = [50]
    fig = None
    if c["fig"] != "none":
        fig = plt.figure()
        if c["fig"] == "used":
            old = fig.add_subplot(2, 2, int(rng.randint(1, 5)))
            old.plot([0, 1], [2, 3])
        kw["fig"] = fig
    if c["box"]:
        kw["boxplot"] = True
    X0 = X.copy()
    A0 = [np.array(a, copy=True) for a in A]
    before = list(fig.axes) if fig is not None else []
    out = visualize_nonlinear_causal_effect(X, arg, est, names[cause], names[effect], **kw)
    try:
        m.check("input-kept", X.equals(X0) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(A, A0)))
        X = X0
        m.check("figure", isinstance(out, plt.Figure) and (fig is None or out is fig))
        classes = [None] if not discrete else sorted(set(X[names[effect]]))
        axes = [a for a in out.axes if a not in before]
        if not m.check("axes", len(axes) == len(classes), got=len(axes), want=len(classes)):
            return
        if before:
            m.check("other-axes-kept", len(before[0].lines) == 1 and not before[0].collections)
        # reference curves
        vals = {cl: np.full((S, len(grid)), np.nan) for cl in classes}
        m.check("trained-on-replicate", len(log) == S, got=len(log), want=S)
        for s in range(S):
            pa = [j for j in range(c["d"]) if np.abs(A[s][cause, j]) > 0 and j not in (effect, cause)]
            cols = sorted([cause] + pa)
            F = X.iloc[idx[s], cols]
            y = X.iloc[idx[s], effect]
            D = dummies(F, X)
            if s < len(log):
                lc, lX, ly = log[s]
                m.check("trained-columns", sorted(lc) == sorted(D.columns), got=lc, want=list(D.columns))
                m.check("trained-on-replicate", list(ly) == list(np.asarray(y)) and sorted(lc) == sorted(D.columns) and np.allclose(lX, D[lc].to_numpy()), s=s)
            e = new(k)
            e.fit(D, y)
            for g, v in enumerate(grid):
                D2 = D.copy()
                D2[names[cause]] = float(v)
                if not discrete:
                    vals[None][s, g] = np.mean(e.predict(D2))
                else:
                    P = e.predict_proba(D2)
                    for q, cl in enumerate(e.classes_):
                        vals[cl][s, g] = P[:, q].mean()
        byclass = {}
        for ax, cl in zip(axes, classes):
            byclass[cl] = ax
        if discrete:
            m.check("classes", [a.get_title() for a in axes] == [f"class {cl}" for cl in classes], got=[a.get_title() for a in axes])
        for cl, ax in byclass.items():
            V = vals[cl]
            have = np.isfinite(V[:, 0])
            V = V[have]
            if not len(V):
                m.skip("class-never-drawn")
                continue
            tol = 1e-6 * (1 + np.abs(V).max())
            m.check("labels", ax.get_xlabel() == names[cause] and (discrete or names[effect] in ax.get_ylabel()), got=[ax.get_xlabel(), ax.get_ylabel()])
            if not c["box"]:
                P = np.vstack([np.asarray(q.get_offsets()) for q in ax.collections]) if ax.collections else np.zeros((0, 2))
                W = np.array([(g, v) for gi, g in enumerate(grid) for v in V[:, gi]])
                ok = P.shape == W.shape
                if ok:
                    for g in grid:
                        a, b = np.sort(P[np.isclose(P[:, 0], g), 1]), np.sort(W[np.isclose(W[:, 0], g), 1])
                        ok &= a.shape == b.shape and np.allclose(a, b, atol=tol)
                m.check("points", ok, cl=cl, got=P[:6], want=W[:6], est=k)
            else:
                L = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]
                for gi, g in enumerate(grid):
                    med, q1, q3 = np.percentile(V[:, gi], [50, 25, 75])
                    near = [(a, b) for a, b in L if len(a) and abs(a.mean() - g) < 0.26 and len(a) in (2, 5)]
                    okm = any(len(a) == 2 and np.allclose(b, med, atol=tol) for a, b in near)
                    okb = any(len(a) == 5 and abs(b.min() - q1) < tol and abs(b.max() - q3) < tol for a, b in near)
                    m.check("boxes", okm and okb, g=g, med=med, q=[q1, q3])
            lines = [l for l in ax.lines if len(l.get_xdata()) == len(grid) and np.allclose(np.asarray(l.get_xdata(), float), grid)]
            want = np.percentile(V, pct, axis=0)
            if c["grid"] == "single" and c["box"]:
                continue  # a box element may have one point, too
            if m.check("grid", len(lines) == len(pct), got=len(lines), want=len(pct)):
                for l, p, w in zip(lines, pct, want):
                    lab = l.get_label()
                    m.check("percentile-lines", np.allclose(np.asarray(l.get_ydata(), float), w, atol=tol) and (c["src"] == "matrix" or lab == f"{p}%"), p=p, got=l.get_ydata(), want=w, label=lab)
        m.state(np.array([np.nan_to_num(a) for a in A]), np.concatenate([v.ravel() for v in vals.values()]))
    finally:
        plt.close("all")


def case_continuous(m, rng, c):
    run(m, rng, c, False)


def case_discrete(m, rng, c):
    run(m, rng, c, True)
