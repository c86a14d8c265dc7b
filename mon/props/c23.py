"""C23: simulated data obey the trained structural equations and the requested changes."""
import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.ensemble import RandomForestRegressor, RandomForestClassifier
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.model_selection import GridSearchCV
from sklearn.naive_bayes import GaussianNB
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler, PolynomialFeatures
from sklearn.tree import DecisionTreeRegressor
import lingam

from mon import gen, oracle

RULE = (
    "mixed continuous and discrete data of 2-8 variables, graphs from the three supported families (plain, with unresolved pairs, with 0-3 lags), default and user-supplied models, "
    "sequences of runs with random changes of exogenous values, parents, coefficients and models, with and without shuffling, interleaved with retraining; every simulated column is recomputed "
    "from the simulated causes by independently trained models; non-trivial: a run with a change that has descendants; distinct by (graph, change)"
)
REQUIRED = {"structural-equation": 900, "exogenous-kept": 300, "changed-exogenous": 150, "changed-model": 150, "non-descendants-untouched": 300, "discrete-values-seen": 80,
            "baseline-again": 100, "shuffle-is-permutation": 100, "lagged-kept": 100, "cyclic-refused": 20, "training-table": 300, "user-model-untouched": 60}
SLOW_FIRST = ["series"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([20, 40, 120])), "d": int(r.choice([2, 3, 4, 5, 8])), "density": float(r.choice([0.3, 0.6, 1.0])), "disc": i % 2 == 1,
                "form": ["frame", "array", "intframe", "list"][i % 4], "models": ["default", "user", "some"][i % 3], "algo": [None, "DirectLiNGAM", "ICALiNGAM", "BottomUpParceLiNGAM"][i % 4 if i % 5 else 3]}

    return gen.spread(seed, tier, [("cross", 110, 1100, f), ("long", 6, 40, lambda i, r: dict(f(i, r), n=[1100, 700][i % 2], d=3)), ("deep", 8, 50, lambda i, r: dict(f(i, r), d=2, n=60, lags=int([5, 7, 11, 12][i % 4]), algo="VARLiNGAM")), ("series", 60, 600, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 4])), lags=int([1, 2, 3, 0][i % 4]), algo="VARLiNGAM"))])


class World:
    """the reference simulator: names, training values, parents, equations"""

    def __init__(self, names, data, parents, discrete, models):
        self.names, self.data, self.parents, self.discrete = names, data, parents, discrete
        self.eq, self.res, self.pred = {}, {}, {}
        for v in names:
            if parents[v]:
                P = np.column_stack([data[p] for p in parents[v]])
                if v in models:
                    mdl = clone(models[v])
                else:
                    mdl = LogisticRegression() if v in discrete else LinearRegression()
                mdl.fit(P, data[v])
                self.eq[v] = mdl
                self.pred[v] = np.ravel(mdl.predict(P))
                if v not in discrete:
                    self.res[v] = data[v] - self.pred[v]
            else:
                self.res[v] = data[v]


def make(rng, c):
    n, d = c["n"], c["d"]
    L = c.get("lags")
    if L is None:
        G, order = gen.dag(rng, d, c["density"], 0.3, 1.2)
        A = [G]
    else:
        G, order = gen.dag(rng, d, c["density"], 0.3, 1.2)
        A = [G] + [rng.uniform(-0.5, 0.5, (d, d)) * (rng.rand(d, d) < 0.4) for _ in range(L)]
    X = np.zeros((n + (L or 0), d))
    E = np.column_stack([gen.noise(rng, ["uniform", "exp", "laplace"][rng.randint(3)], len(X)) for _ in range(d)])
    disc = [c["disc"] and rng.rand() < 0.4 for _ in range(d)]
    k = [int(rng.choice([2, 2, 3])) for _ in range(d)]
    while len(A) > 1:  # a stable process
        M = np.zeros((d * (len(A) - 1),) * 2)
        M[:d] = np.hstack([np.linalg.solve(np.eye(d) - A[0], a) for a in A[1:]])
        M[d:, :-d] = np.eye(len(M) - d)
        if np.abs(np.linalg.eigvals(M)).max() < 0.95:
            break
        A = [A[0]] + [0.7 * a for a in A[1:]]
    for t in range(len(X)):
        for i in order:
            x = E[t, i] + A[0][i] @ X[t] + sum(A[s][i] @ X[t - s] for s in range(1, len(A)) if t - s >= 0)
            X[t, i] = float(np.digitize(x, [-0.3, 0.6][: k[i] - 1])) * (2 if k[i] == 3 else 1) if disc[i] else x
    if c["form"] == "intframe" and not any(disc):
        X = np.round(X * 5)
    for i in range(d):  # every class is present in the part that is modelled
        if disc[i] and len(np.unique(X[(L or 0):, i])) < 2:
            X[-3:, i] = [0, 1, 0]
    X = X + np.where(disc, 0, rng.uniform(-2, 2, d))
    return X, np.array(A), disc


def some_model(rng, discrete):
    k, s = rng.randint(5), int(rng.randint(1000))
    if discrete:
        return [LogisticRegression(C=0.3), RandomForestClassifier(5, max_depth=3, random_state=s), GaussianNB(), make_pipeline(StandardScaler(), LogisticRegression()),
                RandomForestClassifier(3, random_state=s)][k]
    return [LinearRegression(), RandomForestRegressor(5, max_depth=3, random_state=s), make_pipeline(PolynomialFeatures(2), LinearRegression()), DecisionTreeRegressor(max_depth=3, random_state=s),
            GridSearchCV(Ridge(), {"alpha": [0.1, 1.0]}, cv=3)][k]


def order_of(names, parents):
    out = []
    while len(out) < len(names):
        new = [v for v in names if v not in out and all(p in out for p in parents[v])]
        if not new:
            return None
        out += new
    return out


def descend(names, parents, src):
    hit = set(src)
    while True:
        new = {v for v in names if v not in hit and any(p in hit for p in parents[v])}
        if not new:
            return hit
        hit |= new


def setup(rng, c):
    X, A, disc = make(rng, c)
    d, L = c["d"], c.get("lags")
    base = [f"v{j}" for j in rng.permutation(d)] if c["form"] in ("frame",) else [str(j) for j in range(d)]
    arg = {"frame": lambda: pd.DataFrame(X.copy(), columns=base), "intframe": lambda: pd.DataFrame(X.copy(), columns=list(range(d))), "array": lambda: X.copy(), "list": lambda: X.tolist()}[c["form"]]()
    if L is None:
        names = list(base)
        graph = A[0].copy()
        if c["algo"] == "BottomUpParceLiNGAM" and d > 2:
            for _ in range(rng.randint(1, 3)):
                i, j = rng.choice(d, 2, replace=False)
                graph[i, j] = graph[j, i] = np.nan
        parents = {names[i]: [names[j] for j in range(d) if not np.isnan(graph[i, j]) and graph[i, j] != 0] for i in range(d)}
        data = {names[i]: X[:, i].copy() for i in range(d)}
        discrete = [names[i] for i in range(d) if disc[i]]
    else:
        names = [f"{b}[t]" if s == 0 else f"{b}[t-{s}]" for s in range(L + 1) for b in base]
        graph = A.copy()
        parents = {v: [] for v in names}
        for i in range(d):
            parents[names[i]] = [names[s * d + j] for s in range(L + 1) for j in range(d) if A[s, i, j] != 0]
        data = {names[s * d + j]: X[L - s : len(X) - s, j].copy() for s in range(L + 1) for j in range(d)}
        discrete = [names[s * d + i] for s in range(L + 1) for i in range(d) if disc[i]]
    models = {}
    if c["models"] != "default":
        for v in names:
            if parents[v] and (c["models"] == "user" or rng.rand() < 0.5):
                models[v] = some_model(rng, v in discrete)
    return X, arg, graph, names, data, parents, discrete, models, disc


def train(m, sim, c, S):
    X, arg, graph, names, data, parents, discrete, models, disc = S
    W = World(names, data, parents, discrete, models)
    kw = {}
    if c["algo"] is not None:
        kw["cd_algo_name"] = c["algo"]
    if models:
        kw["models"] = dict(models)
    if discrete:
        kw["is_discrete"] = list(disc)
    g = graph.copy()
    sim.train(arg, g, **kw)
    tr = sim.train_result_
    m.check("training-names", list(tr) == names or sorted(tr) == sorted(names), got=list(tr))
    for v in names:
        want = W.res.get(v)
        r = tr[v]["residual"]
        ok = sorted(tr[v]["parent_names"]) == sorted(parents[v]) and (r is None if want is None else np.allclose(np.ravel(r), want, rtol=1e-6, atol=1e-8))
        if parents[v]:
            ok = ok and np.allclose(np.ravel(tr[v]["predicted"]).astype(float), W.pred[v].astype(float), rtol=1e-6, atol=1e-8)
        m.check("training-table", ok, v=v, got=r, want=want)
    for v, mdl in models.items():
        m.check("user-model-untouched", not any(a.endswith("_") and not a.startswith("_") for a in vars(mdl)), v=v)
    # what the caller does with its own arrays afterwards does not matter
    g *= 0
    if isinstance(arg, np.ndarray):
        arg *= -7
    elif isinstance(arg, pd.DataFrame):
        arg.iloc[:, :] = 0
    return W


def reference(W, exog, changes, perm):
    parents = dict(W.parents)
    parents.update({v: list(i["parent_names"]) for v, i in changes.items()})
    order = order_of(W.names, parents)
    out = {}
    for v in order:
        err = exog.get(v, W.res.get(v))
        if err is not None and perm is not None:
            err = err[perm]
        if not parents[v]:
            out[v] = W.data[v] if v in W.discrete else err
            continue
        P = np.column_stack([np.asarray(out[p], float) for p in parents[v]])
        if v in changes and "coef" in changes[v]:
            p = P @ np.asarray(changes[v]["coef"], float)
            if v in W.discrete:
                p = (p >= 0).astype(float)
        elif v in changes:
            p = np.ravel(changes[v]["model"].predict(P))
        else:
            p = np.ravel(W.eq[v].predict(P))
        out[v] = p if v in W.discrete else p + err
    return out, parents


def change(rng, W):
    names, n = W.names, len(W.data[W.names[0]])
    exog, changes = {}, {}
    cont = [v for v in names if v not in W.discrete]
    if cont and rng.rand() < 0.7:
        for v in rng.choice(cont, min(len(cont), rng.randint(1, 3)), replace=False):
            exog[str(v)] = W.data[v].std() * rng.randn(n) + rng.uniform(-4, 4)
    if rng.rand() < 0.7:
        for v in rng.choice(names, rng.randint(1, 3), replace=False):
            v = str(v)
            k = rng.randint(4)
            old = W.parents[v]
            # a new list of causes: fewer, permuted or other ones
            pool = [p for p in names if p != v]
            if k == 0:
                new = []
            elif k == 1 and old:
                new = [str(p) for p in rng.permutation(old)]
            else:
                new = [str(p) for p in rng.permutation(pool)[: rng.randint(1, min(4, len(pool) + 1))]]
            par = dict(W.parents)
            par.update({w: i["parent_names"] for w, i in changes.items()})
            par[v] = new
            if order_of(names, par) is None:
                continue
            if not new:
                changes[v] = {"parent_names": []}
            elif rng.rand() < 0.5:
                changes[v] = {"parent_names": new, "coef": (rng.randn(len(new))).tolist()}
            else:
                P = np.column_stack([W.data[p] for p in new])
                changes[v] = {"parent_names": new, "model": some_model(rng, v in W.discrete).fit(P, W.data[v])}
    return exog, changes


def check_run(m, rng, c, sim, W, exog, changes, shuffle, seed, base):
    kw = {}
    if exog:
        kw["changing_exog"] = {v: (pd.Series(a) if rng.rand() < 0.3 else a.copy()) for v, a in exog.items()}
    if changes:
        kw["changing_models"] = {v: dict(i) for v, i in changes.items()}
    if shuffle:
        kw.update(shuffle_residual=True, random_state=seed)
    df = sim.run(**kw)
    n = len(W.data[W.names[0]])
    m.check("columns", list(df.columns) == W.names and len(df) == n, got=[list(df.columns), len(df)])
    perm = None
    got = {v: np.asarray(df[v], float) for v in W.names}
    parents = dict(W.parents)
    parents.update({v: list(i["parent_names"]) for v, i in changes.items()})
    if shuffle:
        # one common reordering of the error terms, found from a variable without causes (which shows its errors directly)
        roots = [v for v in W.names if not parents[v] and v not in W.discrete]
        for v in roots:
            e = exog.get(v, W.res.get(v))
            m.check("shuffle-is-permutation", e is not None and np.allclose(np.sort(e), np.sort(got[v]), rtol=1e-7, atol=1e-9), v=v)
            if e is not None and len(np.unique(e)) == n and perm is None and np.allclose(np.sort(e), np.sort(got[v]), rtol=1e-7, atol=1e-9) and np.diff(np.sort(e)).min() > 1e-7 * np.ptp(e):
                perm = np.argsort(e)[np.argsort(np.argsort(got[v]))]
        if perm is None:
            m.skip("no-root-to-see-shuffle")
            return df
    ref, parents = reference(W, exog, changes, perm)
    for v in W.names:
        name = "structural-equation" if parents[v] else "exogenous-kept"
        if v in changes:
            name = "changed-model"
        elif v in exog:
            name = "changed-exogenous"
        elif "[t-" in v:
            name = "lagged-kept"
        w = np.asarray(ref[v], float)
        sc = 1e-7 * (1 + np.abs(w).max())
        exact = not parents[v] and v not in W.discrete  # such values are handed through
        m.check(name, np.allclose(got[v], w, rtol=1e-12 if exact else 1e-6, atol=0 if exact else sc), v=v, got=got[v][:6], want=w[:6], shuffle=shuffle, parents=parents[v])
        if v in W.discrete and parents[v] and v not in changes:
            m.check("discrete-values-seen", set(got[v]) <= set(np.asarray(W.data[v], float)), v=v)
    if base is not None and not shuffle:
        hit = descend(W.names, parents, set(exog) | set(changes))
        for v in W.names:
            if v not in hit:
                m.check("non-descendants-untouched", np.array_equal(got[v], np.asarray(base[v], float)), v=v)
        if hit:
            m.state(sorted(exog), sorted((v, i["parent_names"]) for v, i in changes.items()), str(sorted(W.parents.items())))
    return df


def session(m, rng, c):
    sim = lingam.CausalBasedSimulator()
    for rep in range(2):
        S = setup(rng, c)
        W = train(m, sim, c, S)
        base = check_run(m, rng, c, sim, W, {}, {}, False, None, None)
        for _ in range(4):
            exog, changes = change(rng, W)
            seed = int(rng.randint(1000))
            shuffle = rng.rand() < 0.35
            df = check_run(m, rng, c, sim, W, exog, changes, shuffle, seed, base)
            if shuffle:
                again = sim.run(changing_exog={v: a.copy() for v, a in exog.items()}, changing_models=changes, shuffle_residual=True, random_state=seed)
                m.check("shuffle-reproducible", again.astype(float).equals(df.astype(float)))
            df.iloc[:, :] = -99  # the caller owns what it got
        b2 = sim.run()
        m.check("baseline-again", b2.astype(float).equals(base.astype(float)))
        # a change that closes a cycle
        for _ in range(6):
            v, p = [str(a) for a in rng.choice(W.names, 2, replace=False)]
            par = dict(W.parents)
            par[v] = [p]
            if order_of(W.names, par) is None:
                m.raises("cyclic-refused", (ValueError, RuntimeError), lambda: sim.run(changing_models={v: {"parent_names": [p], "coef": [0.5]}}), v=v, p=p)
                break


def case_cross(m, rng, c):
    session(m, rng, c)


case_long = case_deep = case_cross


def case_series(m, rng, c):
    session(m, rng, c)
