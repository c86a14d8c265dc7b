"""C22: intervention effects equal those of the intervened structural model."""
import numpy as np
import pandas as pd
from sklearn.ensemble import RandomForestRegressor, RandomForestClassifier, GradientBoostingRegressor
from sklearn.linear_model import LinearRegression, Ridge, Lasso, LogisticRegression
from sklearn.neighbors import KNeighborsRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeRegressor
import lingam

from mon import gen, oracle

RULE = (
    "linear data of 2-12 variables with random means and scales, causal models given as fitted estimators, arrays and nested lists with permuted orders, "
    "predictors of ten kinds (linear, tree, forest, boosting, neighbours, pipeline, classifiers, user-written); every effect and optimal intervention is recomputed by solving "
    "the intervened linear system; one object is used repeatedly with different data, targets and predictors; distinct by (matrix, predictor, target)"
)
REQUIRED = {"effects": 400, "effects-classifier": 60, "optimal-reaches": 400, "optimal-value": 400, "same-answer-again": 60, "non-descendant-invariant": 100}
SLOW_FIRST = []


class Quadratic:
    """user-written regressor: only the promised method"""

    def __init__(self, w, v):
        self.w, self.v = w, v

    def predict(self, X):
        X = np.asarray(X)
        return X @ self.w + (X * X) @ self.v


class Scorer:
    """user-written classifier"""

    def __init__(self, w):
        self.w = w

    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-np.clip(np.asarray(X) @ self.w, -30, 30)))
        return np.column_stack([p, 1 - p])


class Plain:
    """user-written linear model: only coefficients"""

    def __init__(self, coef, intercept):
        self.coef_, self.intercept_ = coef, intercept


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([15, 60, 300])) if i % 10 else 1500, "d": int(r.choice([2, 3, 4, 5, 6, 8, 12])) if i % 12 else 32, "whole": i % 7 == 3, "units": int(r.choice([0, 2, 2, 5])), "form": ["array", "list", "direct", "ica", "array", "kernel"][i % 6],
                "density": float(r.choice([0.0, 0.3, 0.6, 1.0])), "frame": i % 3 == 1}

    return gen.spread(seed, tier, [("effects", 110, 1200, f), ("optimal", 130, 1500, f)])


def make(rng, c):
    n, d = c["n"], c["d"]
    B, order = gen.dag(rng, d, c["density"], 0.3, 1.5)
    # isolated or nearly separate pieces happen; scales differ by orders of magnitude
    E = np.column_stack([gen.noise(rng, ["uniform", "exp", "laplace", "bimodal"][rng.randint(4)], n) for _ in range(d)])
    X = E @ np.linalg.inv(np.eye(d) - B).T
    if d > 12:
        if rng.rand() < 0.5:
            B = np.where(rng.rand(d, d) < 0.3, B, 0)
        else:  # one long chain
            q = rng.permutation(d)
            B = np.zeros((d, d))
            B[q[1:], q[:-1]] = rng.choice([-1, 1], d - 1) * rng.uniform(0.7, 1.2, d - 1)
        X = E @ np.linalg.inv(np.eye(d) - B).T
    if c["units"]:
        s = 10.0 ** rng.uniform(-c["units"], c["units"], d)
        X, B = X * s, B * s[:, None] / s[None, :]
    X = X + rng.uniform(-3, 3, d) * X.std(0)
    form = c["form"]
    if d > 12 and form != "list":
        form = "array"
    if c["whole"]:  # whole numbers, stored as such
        X = np.round(X / X.std(0) * 20).astype(int)
    if form in ("direct", "kernel") and n > 60 or form == "ica" or form == "direct":
        model = lingam.DirectLiNGAM() if form != "ica" else lingam.ICALiNGAM(random_state=int(rng.randint(1000)))
        try:
            model.fit(X)
        except Exception:
            return None
        M = np.asarray(model.adjacency_matrix_, float)
        return X, M, model
    # the causal model need not be the truth, nor have been estimated from these data
    if rng.rand() < 0.4:
        B, _ = gen.dag(rng, d, c["density"], 0.3, 1.5)
        if rng.rand() < 0.5:  # whole numbers, whose sums cancel
            B = np.sign(B).astype(int) * (1 + (rng.rand(d, d) < 0.2))
    return X, B, (B.tolist() if form == "list" else B.copy())


def structural(B, En, i, v, size=False):
    """solution of the model with the equation of variable i replaced by x_i = v; size: of the terms that are added up"""
    Bd, e = np.array(B, float), np.array(En, float)
    Bd[i] = 0
    e[i] = v
    if size:
        Bd, e = np.abs(Bd), np.abs(e)
    x, todo = np.zeros(len(B)), set(range(len(B)))
    while todo:
        k = next(k for k in todo if not any(Bd[k, j] != 0 for j in todo))
        x[k] = Bd[k] @ x + e[k]
        todo.remove(k)
    return x


def predictor(rng, X, t):
    Z, y = np.delete(X, t, 1), X[:, t]
    k = rng.randint(11)
    s = int(rng.randint(1000))
    if k == 0:
        return LinearRegression().fit(Z, y)
    if k == 1:
        return Lasso(alpha=0.05 * y.std()).fit(Z, y)
    if k == 2:
        return RandomForestRegressor(n_estimators=5, max_depth=3, random_state=s).fit(Z, y)
    if k == 3:
        return GradientBoostingRegressor(n_estimators=10, random_state=s).fit(Z, y)
    if k == 4:
        return KNeighborsRegressor(3).fit(Z, y)
    if k == 5:
        return make_pipeline(StandardScaler(), DecisionTreeRegressor(max_depth=4)).fit(Z, y)
    if k == 6:
        return Quadratic(rng.randn(Z.shape[1]), rng.randn(Z.shape[1]))
    if k == 7:
        return Scorer(rng.randn(Z.shape[1]) / Z.std(0))
    yb = (y > np.median(y)).astype(int)
    if k == 8:
        return make_pipeline(StandardScaler(), LogisticRegression()).fit(Z, yb)
    if k == 9:
        return LogisticRegression(max_iter=300).fit(Z, yb)
    return RandomForestClassifier(n_estimators=5, max_depth=3, random_state=s).fit(Z, yb)


def value(p, z):
    z = z.reshape(1, -1)
    if hasattr(p, "predict_proba"):
        a = p.predict_proba(z)[0]
        return a[0] - a[1]
    return float(np.ravel(p.predict(z))[0])


def case_effects(m, rng, c):
    out = make(rng, c)
    if out is None:
        m.skip("fit-failed")
        return
    X, B, model = out
    n, d = X.shape
    ce = lingam.CausalEffect(model)
    first = None
    for rep in range(4):
        Y = X if rep % 2 == 0 or c["whole"] and rep == 1 else X[rng.choice(n, n)] + rng.uniform(-1, 1, d) * X.std(0)
        t = int(rng.randint(d))
        p = predictor(rng, X, t)
        arg = pd.DataFrame(Y) if c["frame"] else Y.copy()
        got = np.asarray(ce.estimate_effects_on_prediction(arg, t, p), float)
        if first is None:
            first = (Y.copy(), t, p, got.copy())
        mu, sd = Y.mean(0), Y.std(0)
        En = mu - B @ mu
        want = np.zeros((d, 2))
        stable = np.ones((d, 2), bool)
        others = [j for j in range(d) if j != t]
        for i in range(d):
            x = [structural(B, En, i, mu[i] + s * sd[i])[others] for s in (0, 1, -1)]
            v = [value(p, z) for z in x]
            for k in (1, 2):
                want[i, k - 1] = abs(v[0] - v[k])
            # a step function next to its step cannot be predicted: inconclusive
            for eps in (1e-9, -1e-9):
                w = [value(p, z + eps * (np.abs(z) + sd[others])) for z in x]
                for k in range(3):
                    if abs(w[k] - v[k]) > 1e-4 * (1 + abs(v[k])):
                        m.skip("step")
                        stable[i] = False
        name = "effects-classifier" if hasattr(p, "predict_proba") else "effects"
        m.check("shape", got.shape == (d, 2), got=got.shape)
        scale = np.abs(want).max() + np.abs([value(p, np.delete(r, t)) for r in Y[:5]]).max()
        for i in range(d):
            if stable[i].all():
                m.check(name, np.allclose(got[i], want[i], rtol=1e-6, atol=1e-8 * scale), i=i, t=t, got=got[i], want=want[i], predictor=type(p).__name__)
                m.state(B, t, i, type(p).__name__)
    Y, t, p, was = first
    m.check("same-answer-again", np.array_equal(np.asarray(ce.estimate_effects_on_prediction(Y, t, p)), was))


def case_optimal(m, rng, c):
    out = make(rng, c)
    if out is None:
        m.skip("fit-failed")
        return
    X, B, model = out
    n, d = X.shape
    ce = lingam.CausalEffect(model)
    reach = oracle.ancestors_closure(B != 0) if d else None
    for rep in range(5):
        Y = X if rep % 2 == 0 or c["whole"] and rep == 1 else X[rng.choice(n, n)] + rng.uniform(-1, 1, d) * X.std(0)
        t, i = int(rng.randint(d)), int(rng.randint(d))
        Z, y = np.delete(X, t, 1), X[:, t]
        k = rng.randint(4)
        if k == 0 and n > d + 2:
            p = LinearRegression().fit(Z, y)
        elif k == 1:
            p = Ridge().fit(Z, y)
        elif k == 2:
            p = Lasso(alpha=0.05 * y.std()).fit(Z, y)
        else:
            p = Plain(rng.randn(d - 1) * (rng.rand(d - 1) < 0.7) / Z.std(0), float(rng.randn()))
        coef = np.insert(np.asarray(p.coef_, float), t, 0.0)
        mu = Y.mean(0)
        En = mu - B @ mu
        x0, x1 = structural(B, En, i, 0.0), structural(B, En, i, 1.0)
        slope, base = coef @ (x1 - x0), coef @ x0 + p.intercept_
        desired = float(y.mean() + rng.uniform(-3, 3) * y.std())
        v = ce.estimate_optimal_intervention(pd.DataFrame(Y) if c["frame"] else Y.copy(), t, p, i, desired)
        if abs(slope) <= 1e-9 * (np.abs(coef) @ structural(B, np.abs(mu) + np.abs(B) @ np.abs(mu), i, 1.0, size=True)) or slope == 0:
            m.skip("no-influence")
            continue
        v = float(np.ravel(v)[0])
        x = structural(B, En, i, v)
        tol = 1e-9 * (abs(desired) + np.abs(coef) @ structural(B, np.abs(mu) + np.abs(B) @ np.abs(mu), i, v, size=True))
        m.check("optimal-reaches", abs(coef @ x + p.intercept_ - desired) <= tol, i=i, t=t, got=coef @ x + p.intercept_, want=desired)
        m.close("optimal-value", v, (desired - base) / slope, rtol=1e-6, atol=1e-8 * (abs(base) + abs(desired)) / abs(slope), i=i, t=t)
        # the variables upstream keep their means
        up = [j for j in range(d) if j != i and not reach[j, i]]
        m.check("non-descendant-invariant", np.allclose(x[up], mu[up], rtol=1e-6, atol=1e-8 * np.abs(mu).max()))
        m.state(B, t, i)
