"""C29: the experimental generator and the out-of-sample tuner follow their specification."""
import contextlib
import numpy as np
import pandas as pd
from sklearn.dummy import DummyRegressor
from sklearn.ensemble import RandomForestRegressor
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.model_selection import KFold, TimeSeriesSplit
from sklearn.preprocessing import OneHotEncoder, StandardScaler
from sklearn.pipeline import make_pipeline
from sklearn.tree import DecisionTreeRegressor
import lingam
from lingam.experimental import CausalDataGenerator, OutOfSampleCausalTuning

from mon import gen, oracle

RULE = (
    "generator: frames of 40-400 rows with numeric and categorical columns, shuffled names and row labels, 0-3 adjustments, default and user models, every kind of intervention and replaced model, "
    "one object used repeatedly; every generated cell is recomputed. tuner: candidates whose graphs are scripted per fold (so the Markov blankets are known), regressors replaced by a recording "
    "deterministic one, splits given as number, splitter and list, with and without sparsity penalty; distinct by (data, roles/candidates, options)"
)
REQUIRED = {"reproduces-data": 40, "generated-cause": 60, "generated-effect": 60, "adjustments-kept": 60, "model-inputs": 60, "categorical-exact": 30, "categorical-labels": 30,
            "residuals": 60, "candidate-saw-its-training-rows": 40, "blanket": 200, "performance": 30, "mb-size": 30, "selection": 30, "p-value": 30, "tuner-reproducible": 6, "input-kept": 60}
SLOW_FIRST = ["tuner", "tuner_real"]


def cases(seed, tier):
    def g(i, r):
        return {"n": int(r.choice([40, 120, 400])), "adj": [0, 1, 2, 3, 6][i % 5], "catc": i % 5 == 1, "cate": i % 5 == 2, "cata": i % 3 == 1, "model": ["default", "default", "user", "pipe"][(i // 2) % 4]}

    def t(i, r):
        return {"n": int(r.choice([24, 40, 90, 90, 420])), "d": int(r.choice([2, 3, 4, 5, 5, 7])), "k": [1, 2, 3, 4][i % 4], "cv": ["int", "kfold", "list", "shuffled", "forward"][i % 5], "sp": i % 3 != 2,
                "thr": float(r.choice([0.01, 0.05, 0.3])), "others": i % 2 == 0, "twins": i % 4 == 1}

    return gen.spread(seed, tier, [("generator", 130, 1500, g), ("categorical", 40, 400, g), ("tuner", 40, 400, t), ("tuner_real", 3, 24, lambda i, r: {"n": 60, "d": 3, "seed": int(r.randint(1000))})])


# ------------------------------------------------------------------ generator


class Quad:
    """user-written regressor"""

    def fit(self, X, y):
        self.cols_ = list(X.columns)
        F = self._f(X)
        self.w_ = np.linalg.lstsq(F, np.asarray(y, float), rcond=None)[0]
        return self

    def _f(self, X):
        Z = np.asarray(X, float)
        return np.column_stack([np.ones(len(Z)), Z, Z**2])

    def predict(self, X):
        return self._f(X) @ self.w_


def frame(rng, c):
    n, k = c["n"], c["adj"]
    names = [f"v{j}" for j in range(k + 4)]
    rng.shuffle(names)
    cause, effect, adj, rest = names[0], names[1], names[2 : 2 + k], names[2 + k :]
    D = {}
    lin = np.zeros(n)
    for j, a in enumerate(adj):
        if c["cata"] and j == 0:
            lab = rng.choice(["p", "q", "r"], n)
            lab[:3] = ["p", "q", "r"]
            D[a] = pd.Categorical(lab)
            lin = lin + (lab == "p") * 1.5
        else:
            D[a] = rng.uniform(-2, 3, n) * 10.0 ** rng.randint(-1, 2)
            lin = lin + D[a] * rng.uniform(-1, 1)
    x = lin + rng.uniform(-1, 1, n)
    D[cause] = pd.Categorical(np.where(x > np.median(x), "hi", "lo")) if c["catc"] else x
    y = 2.0 * x - lin + rng.uniform(-1, 1, n) + 5
    D[effect] = pd.Categorical(np.digitize(y, np.quantile(y, c.get("cuts", [0.33, 0.66])))) if c["cate"] else y
    for a in rest:
        D[a] = rng.randn(n)
    cols = list(D)
    rng.shuffle(cols)
    X = pd.DataFrame(D)[cols]
    kind = rng.randint(3)
    if kind == 1:
        X.index = rng.permutation(n) + 100
    elif kind == 2:
        X.index = [f"r{i}" for i in rng.permutation(n)]
    return X, cause, effect, adj


def design(X, cats, ref):
    """the features of the default model, written out independently (full dummy coding + numeric + constant)"""
    parts = [np.ones((len(X), 1))]
    for col in X.columns:
        if col in cats:
            levels = sorted(set(np.asarray(ref[col])))
            parts.append(np.array([[v == l for l in levels] for v in np.asarray(X[col])], float))
        else:
            parts.append(np.asarray(X[col], float).reshape(-1, 1))
    return np.hstack(parts)


def predictor(kind, Xtr, y, cats):
    """reference predictor: default = least squares; user = the same user model fitted separately"""
    if kind == "default" or len(cats):
        F = design(Xtr, cats, Xtr)
        w = np.linalg.lstsq(F, np.asarray(y, float), rcond=None)[0]
        return lambda Z: design(Z, cats, Xtr) @ w
    mdl = Quad() if kind == "user" else make_pipeline(StandardScaler(), DecisionTreeRegressor(max_depth=4, random_state=0))
    mdl.fit(Xtr, y)
    return lambda Z: np.asarray(mdl.predict(Z))


def user_model(kind):
    return None if kind == "default" else Quad() if kind == "user" else make_pipeline(StandardScaler(), DecisionTreeRegressor(max_depth=4, random_state=0))


def values(rng, n, form):
    v = rng.uniform(-3, 3, n)
    return v, (v.copy() if form == 0 else v.tolist() if form == 1 else v.reshape(-1))


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-7 * (1 + np.abs(b).max()))


def case_generator(m, rng, c):
    c = dict(c, catc=False, cate=False)
    X, cause, effect, adj = frame(rng, c)
    n = len(X)
    cats = [a for a in adj if str(X[a].dtype) == "category"]
    kind = "default" if cats else c["model"]
    X0 = X.copy()
    g = CausalDataGenerator(random_state=int(rng.randint(1000)))
    aarg = (None if rng.rand() < 0.5 else []) if not adj else adj if rng.rand() < 0.5 else np.array(adj)
    args = {} if kind == "default" else {"model_cause": user_model(kind), "model_effect": user_model(kind)}
    if rng.rand() < 0.3:  # an earlier fit on other data leaves nothing behind
        Y = X.sample(frac=0.8, random_state=1)
        g.fit(Y, effect, cause, adjustments=aarg)
    g.fit(X, cause, effect, adjustments=aarg, **args)
    m.check("input-kept", X.equals(X0) and list(X.columns) == list(X0.columns))
    X = X0
    pe = predictor(kind, X[[cause, *adj]], X[effect], cats)
    pc = predictor(kind, X[adj], X[cause], cats) if adj else None
    ec = np.asarray(X[cause]) - pc(X[adj]) if adj else np.asarray(X[cause])
    ee = np.asarray(X[effect]) - pe(X[[cause, *adj]])
    m.check("residuals", close(g.error_cause_, ec) and close(g.error_effect_, ee), cause=np.abs(np.asarray(g.error_cause_) - ec).max(), effect=np.abs(np.asarray(g.error_effect_) - ee).max())
    m.check("residuals-labelled", list(g.error_cause_.index) == list(X.index) and list(g.error_effect_.index) == list(X.index))
    roles = [cause, effect, *adj]
    plans = [{}]
    for _ in range(5):
        p = {}
        for r in ("endog", "exog"):
            if rng.rand() < 0.6:
                pool = [v for v in roles if v not in cats]
                pick = [v for v in pool if rng.rand() < 0.45]
                if pick:
                    p[r] = pick
        for f in ("cause_model", "effect_model"):
            if rng.rand() < 0.3:
                p[f] = True
        plans.append(p)
    plans.append({})
    for p in plans:
        log, kw, given = {}, {}, {"endog": {}, "exog": {}}
        for r in ("endog", "exog"):
            if r in p:
                kw["interv_" + r] = {}
                for v in p[r]:
                    given[r][v], kw["interv_" + r][v] = values(rng, n, rng.randint(3))
        for f, cols in (("cause_model", adj), ("effect_model", [cause, *adj])):
            if p.get(f):
                s = float(rng.uniform(1, 2))

                def fn(Z, err, a, f=f):
                    log[f] = (Z.copy(), np.array(err, float), a)
                    num = [v for v in Z.columns if v not in cats]
                    return a * np.asarray(Z[num], float).sum(1) - 2 * np.asarray(err, float) + 1

                kw[f], kw[f + "_args"] = fn, s
        given_copy = {k: ({a: np.array(b, copy=True) for a, b in v.items()} if isinstance(v, dict) else v) for k, v in kw.items()}
        out = g.generate(**kw)
        m.check("input-kept", X0.equals(X) and all(np.array_equal(np.asarray(kw[k][a]), b) for k in kw if isinstance(kw[k], dict) for a, b in given_copy[k].items()))
        m.check("columns", list(out.columns) == [v for v in X.columns if v in roles] and list(out.index) == list(X.index), got=list(out.columns))
        # ---- the specification, cell by cell
        W = X[adj].copy()
        for v in adj:
            if v in given["exog"]:
                W[v] = given["exog"][v]
            if v in given["endog"]:
                W[v] = given["endog"][v]
        for v in adj:
            m.check("adjustments-kept", (list(out[v]) == list(W[v])) if v in cats else close(out[v], W[v]), var=v, plan=p)
        uc, ue = given["exog"].get(cause, ec), given["exog"].get(effect, ee)
        num = [v for v in adj if v not in cats]
        if cause in given["endog"]:
            xc = given["endog"][cause]
        elif p.get("cause_model"):
            xc = kw["cause_model_args"] * np.asarray(W[num], float).sum(1) - 2 * uc + 1
            if m.check("model-called", "cause_model" in log):
                Z, e, a = log["cause_model"]
                m.check("model-inputs", list(Z.columns) == adj and close(e, uc) and a == kw["cause_model_args"], plan=p)
        else:
            xc = uc + (pc(W) if adj else 0)
        m.check("generated-cause", close(out[cause], xc), plan=p, dev=np.abs(np.asarray(out[cause], float) - xc).max())
        W2 = W.copy()
        W2.insert(0, cause, xc)
        if effect in given["endog"]:
            xe = given["endog"][effect]
        elif p.get("effect_model"):
            xe = kw["effect_model_args"] * (np.asarray(W[num], float).sum(1) + xc) - 2 * ue + 1
            if m.check("model-called", "effect_model" in log):
                Z, e, a = log["effect_model"]
                m.check("model-inputs", list(Z.columns) == [cause, *adj] and close(e, ue) and close(Z[cause], xc) and a == kw["effect_model_args"], plan=p)
        else:
            xe = ue + pe(W2)
        m.check("generated-effect", close(out[effect], xe), plan=p, dev=np.abs(np.asarray(out[effect], float) - xe).max())
        if not p:
            m.check("reproduces-data", close(out[cause], X[cause]) and close(out[effect], X[effect]))
        m.state(np.asarray(out[cause], float), np.asarray(out[effect], float), repr(p))


class Oracle:
    """user-written classifier with certain probabilities (so the draw is determined), class order scrambled"""

    _estimator_type = "classifier"

    def __init__(self, classes, sure=True):
        self.classes, self.sure = classes, sure

    def fit(self, X, y):
        self.classes_ = np.array(self.classes)
        return self

    def idx(self, X):
        num = [v for v in X.columns if str(X[v].dtype) not in ("category", "object", "str", "string")]
        s = np.floor(np.abs(np.asarray(X[num], float)).sum(1) * 3).astype(int) + sum(np.array([len(str(x)) + ord(str(x)[-1]) for x in X[v]]) for v in X.columns if v not in num)
        return s % len(self.classes_)

    def predict_proba(self, X):
        P = np.zeros((len(X), len(self.classes_)))
        P[np.arange(len(X)), self.idx(X)] = 1.0
        return P

    def predict(self, X):
        return self.classes_[self.idx(X)]


def case_categorical(m, rng, c):
    c = dict(c, n=int(rng.choice([60, 200])), adj=max(1, c["adj"]), cata=False)
    both = rng.randint(3)
    if rng.rand() < 0.5:
        c["cuts"] = [0.2, 0.4, 0.7, 0.85]
    c["catc"], c["cate"] = both != 0, both != 1
    X, cause, effect, adj = frame(rng, c)
    n = len(X)
    # certain classifiers: exact recomputation
    args, mc, me = {}, None, None
    if c["catc"]:
        args["model_cause"] = mc = Oracle(["lo", "hi"])
    if c["cate"]:
        args["model_effect"] = me = Oracle([2, 0, 1] if "cuts" not in c else [3, 1, 4, 0, 2])
    try:
        g = CausalDataGenerator(random_state=int(rng.randint(1000))).fit(X, cause, effect, adjustments=adj, **args)
    except (TypeError, RuntimeError) as e:
        m.check("categorical-fit", False, err=str(e))
        return
    iv = {}
    if rng.rand() < 0.5:
        v = adj[rng.randint(len(adj))]
        iv = {v: rng.uniform(-2, 2, n)}
    out = g.generate(interv_exog=iv) if iv else g.generate()
    W = X[adj].copy()
    for v in iv:
        W[v] = iv[v]
    if c["catc"]:
        want = mc.predict(W)
        m.check("categorical-exact", [str(v) for v in out[cause]] == [str(v) for v in want])
        m.check("categorical-dtype", str(out[cause].dtype) == "category")
    else:
        F = lambda Z: np.column_stack([np.ones(len(Z)), np.asarray(Z, float)])
        w = np.linalg.lstsq(F(X[adj]), np.asarray(X[cause], float), rcond=None)[0]
        m.check("generated-cause", close(out[cause], np.asarray(X[cause], float) - F(X[adj]) @ w + F(W) @ w))
    W2 = W.copy()
    W2.insert(0, cause, np.asarray(out[cause]))
    if c["cate"]:
        want = me.predict(W2)
        m.check("categorical-exact", [str(v) for v in out[effect]] == [str(v) for v in want])
        m.check("categorical-dtype", str(out[effect].dtype) == "category")
    else:
        pe = predictor("default", X[[cause, *adj]], X[effect], [cause])
        m.check("generated-effect", close(out[effect], np.asarray(X[effect]) - pe(X[[cause, *adj]]) + pe(W2)))
    # default classifiers: labels are known ones and their frequencies follow the fitted probabilities
    g = CausalDataGenerator(random_state=int(rng.randint(1000))).fit(X, cause, effect, adjustments=adj)
    a = g.generate()
    for v in (cause, effect):
        if str(X[v].dtype) == "category":
            m.check("categorical-labels", set(a[v]) <= set(X[v]) and not pd.isnull(a[v]).any())
            m.check("categorical-dtype", str(a[v].dtype) == "category")
    if c["catc"]:
        T = 40
        hits = sum((np.asarray(g.generate()[cause]) == "hi").sum() for _ in range(T))
        mdl = LogisticRegression(max_iter=1000).fit(np.asarray(X[adj], float), np.asarray(X[cause]))
        P = mdl.predict_proba(np.asarray(X[adj], float))[:, list(mdl.classes_).index("hi")]
        sd = np.sqrt(T * (P * (1 - P)).sum()) + 1e-9
        m.check("categorical-frequency", abs(hits - T * P.sum()) < 7 * sd + 0.02 * T * n, got=hits, want=T * P.sum(), sd=sd)
    if c["cate"] and not c["catc"]:
        T = 40
        labs = sorted(set(X[effect]))
        F2 = np.asarray(X[[cause, *adj]], float)
        got = [np.asarray(g.generate()[effect]) for _ in range(T)]
        mdl = LogisticRegression(max_iter=1000).fit(F2, np.asarray(X[effect]))
        P = mdl.predict_proba(F2)
        for l in labs:
            q = P[:, list(mdl.classes_).index(l)]
            for half in (q >= np.median(q), q < np.median(q)):
                hits = sum((v[half] == l).sum() for v in got)
                sd = np.sqrt(T * (q * (1 - q))[half].sum()) + 1e-9
                m.check("categorical-frequency", abs(hits - T * q[half].sum()) < 7 * sd + 0.02 * T * n, label=str(l), got=hits, want=T * q[half].sum(), sd=sd)
    m.state(np.asarray(X[adj], float), str(list(out[cause])[:20]), both)


# ---------------------------------------------------------------------- tuner

LOG = []


@contextlib.contextmanager
def regressors():
    """sklearn's forest becomes a deterministic recording ridge regression (fast, and its predictions are known)"""
    old = RandomForestRegressor.fit, RandomForestRegressor.predict

    def fit(self, X, y, *a, **k):
        X, y = np.asarray(X, float), np.asarray(y, float)
        LOG.append((X.copy(), y.copy()))
        self._w = ridge(X, y)
        return self

    def predict(self, X):
        return ridge_predict(self._w, np.asarray(X, float))

    RandomForestRegressor.fit, RandomForestRegressor.predict = fit, predict
    del LOG[:]
    try:
        yield
    finally:
        RandomForestRegressor.fit, RandomForestRegressor.predict = old


def ridge(X, y):
    mu, my = X.mean(0), y.mean()
    Z = X - mu
    return mu, my, np.linalg.solve(Z.T @ Z + 1e-3 * np.eye(Z.shape[1]), Z.T @ (y - my))


def ridge_predict(w, X):
    return w[1] + (X - w[0]) @ w[2]


class Scripted:
    """candidate whose graphs are chosen by the monitor"""

    def __init__(self, graphs=None, log=None, tag=None):
        self.graphs, self.log, self.tag = graphs, log, tag

    def fit(self, X, extra=None):
        k = len([e for e in self.log if e[0] == self.tag])
        self.log.append((self.tag, np.array(X, copy=True), extra))
        self.adjacency_matrix_ = self.graphs[k % len(self.graphs)].copy()
        return self


def blanket(B, i):
    d = len(B)
    A = np.abs(B) > 1e-8
    s = {j for j in range(d) if A[i, j] or A[j, i]}
    for ch in range(d):
        if A[ch, i]:
            s |= {j for j in range(d) if A[ch, j]}
    return sorted(s - {i})


def info(a, b):
    return -0.5 * np.log(1 - np.corrcoef(a, b)[0, 1] ** 2)


def case_tuner(m, rng, c):
    d, n = c["d"], c["n"]
    B0, order = gen.dag(rng, d, 0.8, *((0.4, 1.5) if rng.rand() < 0.5 else (0.03, 0.5)))  # weak edges: sparser candidates that are hardly worse
    X, B0, _ = gen.linear_data(rng, n, d, B=B0, order=order)
    X = X + rng.uniform(-3, 3, d)
    F = int(rng.choice([2, 3, 5]))
    perm = rng.permutation(n)
    parts = np.array_split(perm, F)
    splits = {"int": lambda: list(KFold(F).split(X)), "kfold": lambda: list(KFold(F, shuffle=True, random_state=5).split(X)),
              "list": lambda: [(np.setdiff1d(perm, p), p) for p in parts], "shuffled": lambda: list(KFold(F, shuffle=True, random_state=9).split(X)),
              "forward": lambda: list(TimeSeriesSplit(F).split(X))}[c["cv"]]()
    cv = {"int": F, "kfold": KFold(F, shuffle=True, random_state=5), "list": [(a.copy(), b.copy()) for a, b in splits], "shuffled": KFold(F, shuffle=True, random_state=9), "forward": TimeSeriesSplit(F)}[c["cv"]]
    log, configs, graphs = [], [], []
    for k in range(c["k"]):
        if c["twins"] and k == 1:
            gs = [g.copy() for g in graphs[0]]
        else:
            gs = []
            for _ in range(F):
                G = B0 * (rng.rand(d, d) < rng.choice([0.3, 0.7, 1.0])) if rng.rand() < 0.7 else gen.dag(rng, d, rng.choice([0.2, 0.8]))[0]
                if rng.rand() < 0.2:
                    G = G + 1e-10 * (rng.rand(d, d) < 0.5)  # numerically zero weights
                gs.append(G)
        graphs.append(gs)
        cfg = {"model": Scripted, "init_kwargs": {"graphs": gs, "log": log, "tag": k}}
        if rng.rand() < 0.4:
            cfg["fit_kwargs"] = {"extra": k + 7}
        if rng.rand() < 0.3:
            cfg["all_others"] = False
        configs.append(cfg)
    if c["others"]:
        configs.append({"all_others": True} if rng.rand() < 0.5 else {"all_others": True, "model": Scripted})
        graphs.append(None)
    seed = int(rng.randint(10000))
    arg = pd.DataFrame(X) if rng.rand() < 0.3 else X.copy()
    t = OutOfSampleCausalTuning(cv=cv, sparsity_penalty=c["sp"], thr=c["thr"], random_state=seed)
    with regressors():
        t.fit(arg, configs)
        calls = list(LOG)
    m.check("input-kept", np.array_equal(np.asarray(arg), X))
    # each candidate is fitted to exactly the training rows of each split, in turn
    for k, gs in enumerate(graphs):
        if gs is None:
            continue
        ev = [e for e in log if e[0] == k]
        want_extra = configs[k].get("fit_kwargs", {}).get("extra")
        m.check("candidate-saw-its-training-rows", len(ev) == F and all(np.array_equal(e[1], X[tr]) and e[2] == want_extra for e, (tr, te) in zip(ev, splits)), k=k)
    # reference evaluation
    perf, size, preds, truth = [], [], [], []
    want_calls = []
    for gs in graphs:
        P = [[] for _ in range(d)]
        T = [[] for _ in range(d)]
        ln = []
        for f, (tr, te) in enumerate(splits):
            for v in range(d):
                bl = [j for j in range(d) if j != v] if gs is None else blanket(gs[f], v)
                ln.append(len(bl))
                if bl:
                    want_calls.append((X[tr][:, bl], X[tr][:, v]))
                    P[v].append(ridge_predict(ridge(X[tr][:, bl], X[tr][:, v]), X[te][:, bl]))
                else:
                    P[v].append(np.full(len(te), X[tr][:, v].mean()))
                T[v].append(X[te][:, v])
        P, T = [np.concatenate(p) for p in P], [np.concatenate(p) for p in T]
        perf.append(np.mean([info(a, b) for a, b in zip(P, T)]))
        size.append(np.mean(ln))
        preds.append(P)
        truth.append(T)
    perf = np.array(perf)
    if not np.isfinite(perf).all():
        m.skip("degenerate-score")
        return
    # the regressions run are those of the blankets (any order)
    key = lambda X_, y: (X_.shape, round(float(y.sum()), 6), round(float(np.sort(X_.sum(0)).sum()), 6), round(float((X_**2).sum()), 5))
    a, b = sorted(key(*q) for q in calls), sorted(key(*q) for q in want_calls)
    for u, v in zip(a, b):
        m.check("blanket", u[0] == v[0] and np.allclose(u[1:], v[1:], rtol=1e-5, atol=1e-4), got=u, want=v)
    m.check("blanket-count", len(a) == len(b), got=len(a), want=len(b))
    s = t.scores_
    m.check("performance", np.allclose(s["performance"], perf, rtol=1e-6, atol=1e-9), got=s["performance"], want=perf)
    m.check("mb-size", np.allclose(s["mb_size"], size, rtol=1e-12), got=s["mb_size"], want=size)
    best = int(np.argmax(perf))
    lead = perf >= perf.max() - 1e-9 * (1 + abs(perf.max()))
    got = int(t.best_config_index_)
    if not c["sp"]:
        m.check("selection", lead[got], got=got, perf=perf)
        m.check("no-sp", s["sp_score"] is None)
    else:
        ps = {int(k): float(v) for k, v in s["sp_score"].items()}
        missing = set(range(len(perf))) - set(ps)
        if not m.check("sp-keys", len(missing) == 1 and lead[list(missing)[0]], got=sorted(ps)):
            return
        best = missing.pop()
        ok = [best] + [k for k in ps if ps[k] > c["thr"]]
        mn = min(size[k] for k in ok)
        m.check("selection", got in ok and size[got] <= mn + 1e-12, got=got, cand=ok, size=size, ps=ps)
        if size[best] <= mn + 1e-12:
            m.check("best-kept-if-as-sparse", lead[got], got=got, best=best, size=size, perf=perf)
        edge = [k for k in ps if 0 < ps[k] < 0.9]
        if edge:  # the same candidate exactly at, and just beyond, the significance threshold
            k0 = int(min(edge, key=lambda k: size[k]))
            for th in (ps[k0], ps[k0] - 5e-4):
                u = OutOfSampleCausalTuning(cv=cv, sparsity_penalty=True, thr=float(th), random_state=seed)
                del log[:]
                with regressors():
                    u.fit(arg, configs)
                ps2 = {int(a): float(b) for a, b in u.scores_["sp_score"].items()}
                if ps2 != ps:
                    m.check("tuner-reproducible", False, got=ps2, want=ps)
                    break
                ok2 = [best] + [k for k in ps if ps[k] > th]
                m.check("selection-at-threshold", int(u.best_config_index_) in ok2 and size[int(u.best_config_index_)] <= min(size[k] for k in ok2) + 1e-12, got=int(u.best_config_index_), cand=ok2, size=size, ps=ps, thr=th)
        r2 = np.random.RandomState(seed + 1)
        for k in ps:
            T = 1500
            diff = np.zeros(T)
            for v in range(d):
                y = truth[k][v]
                for sgn, p in ((1, preds[best][v]), (-1, preds[k][v])):
                    Q = np.argsort(r2.rand(T, len(p)), axis=1)
                    Z = p[Q] - p.mean()
                    sd = np.sqrt((Z[0] ** 2).sum() * ((y - y.mean()) ** 2).sum())
                    r = Z @ (y - y.mean()) / sd
                    diff += sgn * -0.5 * np.log(1 - r**2) / d
            t_obs = perf[best] - perf[k]
            if t_obs < 1e-9 and np.abs(diff).max() < 1e-9:
                continue
            p = (diff > t_obs).mean()
            tol = 6 * np.sqrt(max(p * (1 - p), 0.002) * (1 / T + 1 / 1000)) + 0.005
            m.check("p-value", abs(ps[k] - p) <= tol, k=k, got=ps[k], want=p, tol=tol, t=t_obs)
    m.state(X, got, c["cv"], perf)
    if rng.rand() < 0.35:
        u = OutOfSampleCausalTuning(cv=cv, sparsity_penalty=c["sp"], thr=c["thr"], random_state=seed)
        del log[:]
        with regressors():
            u.fit(arg, configs)
        m.check("tuner-reproducible", int(u.best_config_index_) == got and repr(u.scores_) == repr(s), got=repr(u.scores_), want=repr(s))
        del log[:]
        with regressors():
            t.fit(arg, configs)  # and on the used object
        m.check("tuner-reproducible", int(t.best_config_index_) == got and repr(t.scores_) == repr(s))


def case_tuner_real(m, rng, c):
    X, _, _ = gen.linear_data(np.random.RandomState(c["seed"]), c["n"], c["d"], 1.0)
    configs = [{"model": lingam.DirectLiNGAM}, {"model": lingam.ICALiNGAM, "init_kwargs": {"random_state": 0}}, {"all_others": True}]
    res = []
    for _ in range(2):
        t = OutOfSampleCausalTuning(cv=2, random_state=3, sparsity_penalty=False).fit(X, configs)
        res.append((int(t.best_config_index_), repr(t.scores_)))
    m.check("tuner-reproducible", res[0] == res[1], got=res)
    m.check("selection", res[0][0] == int(np.argmax(t.scores_["performance"])))
    m.state(X, res[0][0])
