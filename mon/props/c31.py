"""C31: invalid arguments are refused with an error, never silently used."""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd
import lingam
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.tree import DecisionTreeRegressor
from lingam.bootstrap import BootstrapResult
from lingam.experimental import CausalDataGenerator, OutOfSampleCausalTuning
from lingam.tools import BaseMultiGroupCDModel, BaseMultipleImputation, bootstrap_with_imputation
from lingam import utils

from mon import gen, oracle

RULE = (
    "matrix of documented restrictions over the public API: for each one, values on the forbidden side (near and far, several types) must raise before anything is returned, and the boundary values on the "
    "permitted side must be accepted; faults in the data (a single NaN or infinity at a random cell, group or time point; wrong dimensions; empty; text; inconsistent sizes) are injected into every entry "
    "point; distinct by (entry point, restriction, value)"
)
REQUIRED = {"refused:data": 250, "refused:parameter": 200, "refused:bootstrap": 80, "refused:query": 120, "refused:utils": 120, "refused:other": 120, "accepted": 250}
SLOW_FIRST = ["data", "bootstrap", "param"]

EST = ["direct", "kernel", "ica", "highdim", "resit", "rcd", "bottomup", "camuv", "lim", "var", "varma", "multi", "mgrcd", "mgcamuv", "longitudinal"]
BOOT = ["direct", "ica", "resit", "rcd", "bottomup", "multi", "mgrcd", "longitudinal", "var", "varma"]


def cases(seed, tier):
    t = []
    for kind, names in (("data", EST), ("bootstrap", BOOT), ("param", EST)):
        t.append((kind, len(names) * 2, len(names) * 12, lambda i, r, names=names: {"est": names[i % len(names)]}))
    for kind in ("query", "result", "utilities", "plots", "imputation", "effect", "simulator", "generator", "tuner"):
        t.append((kind, 4, 40, None))
    return gen.spread(seed, tier, t)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Table:
    def __init__(self, m, group, prefix):
        self.m, self.group, self.prefix = m, group, prefix

    def bad(self, what, fn, exc=Exception):
        """fn must raise; exc where the kind of error is part of the interface"""
        try:
            with quiet():
                r = fn()
        except exc as e:
            self.m.check("refused:" + self.group, True)
            self.m.state(self.prefix, what)
            return
        except Exception as e:
            self.m.check("refused:" + self.group, False, tag=f"{self.prefix} {what}", raised=repr(e)[:200], expected=str(exc))
            return
        self.m.check("refused:" + self.group, False, tag=f"{self.prefix} {what}", returned=repr(r)[:200])

    def good(self, what, fn):
        try:
            with quiet():
                fn()
        except Exception as e:
            self.m.check("accepted", False, tag=f"{self.prefix} {what}", raised=repr(e)[:300])
            return
        self.m.check("accepted", True)
        self.m.state(self.prefix, what, "ok")


def make(name, **kw):
    if name == "direct":
        return lingam.DirectLiNGAM(**kw)
    if name == "kernel":
        return lingam.DirectLiNGAM(measure="kernel", **kw)
    if name == "ica":
        return lingam.ICALiNGAM(**dict({"random_state": 0, "max_iter": 100}, **kw))
    if name == "highdim":
        return lingam.HighDimDirectLiNGAM(**kw)
    if name == "resit":
        return lingam.RESIT(**dict({"regressor": LinearRegression()}, **kw))
    if name == "rcd":
        return lingam.RCD(**kw)
    if name == "bottomup":
        return lingam.BottomUpParceLiNGAM(**kw)
    if name == "camuv":
        return lingam.CAMUV(**kw)
    if name == "lim":
        return lingam.LiM(**kw)
    if name == "var":
        return lingam.VARLiNGAM(**kw)
    if name == "varma":
        return lingam.VARMALiNGAM(**dict({"order": (1, 1), "criterion": None}, **kw))
    if name == "multi":
        return lingam.MultiGroupDirectLiNGAM(**kw)
    if name == "mgrcd":
        return lingam.MultiGroupRCD(**kw)
    if name == "mgcamuv":
        return lingam.MultiGroupCAMUV(**kw)
    if name == "longitudinal":
        return lingam.LongitudinalLiNGAM(**kw)
    raise KeyError(name)


def data(rng, name):
    if name in ("multi", "mgrcd", "mgcamuv"):
        return [gen.linear_data(rng, int(rng.choice([30, 41])), 3, 0.7)[0] for _ in range(int(rng.choice([2, 3, 4])))]
    if name == "longitudinal":
        return [gen.linear_data(rng, 40, 3, 0.7)[0] for _ in range(3)]
    if name in ("var", "varma"):
        return gen.linear_data(rng, 60, 2, 0.7)[0]
    X = gen.linear_data(rng, 40, 3, 0.7)[0]
    if name == "lim":
        X[:, 0] = (X[:, 0] > X[:, 0].mean()).astype(float)
    return X


def fit(name, model, X):
    if name == "lim":
        return model.fit(X, np.array([[0.0, 1.0, 1.0]]), only_global=True)
    return model.fit(X)


def spoilt(rng, X):
    """(what, data) with one fault each"""
    out = []
    X = np.array(X, float)
    n, d = X.shape
    for what, v in (("nan", np.nan), ("inf", np.inf), ("-inf", -np.inf)):
        for where in ("any", "last", "first"):
            Y = X.copy()
            i, j = {"any": (rng.randint(n), rng.randint(d)), "last": (n - 1, d - 1), "first": (0, 0)}[where]
            Y[i, j] = v
            out.append((f"{what} at {where} cell", Y if rng.rand() < 0.7 else pd.DataFrame(Y)))
    out.append(("one-dimensional", X[:, 0]))
    out.append(("three-dimensional", X[None]))
    out.append(("no rows", X[:0]))
    out.append(("no columns", X[:, :0]))
    T = X.astype(object)
    T[rng.randint(n), rng.randint(d)] = "text"
    out.append(("text", T))
    out.append(("scalar", 3.0))
    out.append(("none", None))
    return out


def case_data(m, rng, c):
    name = c["est"]
    t = Table(m, "data", name)
    X = data(rng, name)
    if isinstance(X, list):
        for what, Y in spoilt(rng, X[0]):
            k = [0, len(X) - 1, rng.randint(len(X))][rng.randint(3)]
            Z = [x.copy() for x in X]
            Z[k] = Y
            t.bad(f"{what} in group {k}", lambda: fit(name, make(name), Z))
        t.bad("one group", lambda: fit(name, make(name), X[:1]), ValueError)
        t.bad("no group", lambda: fit(name, make(name), []), ValueError)
        t.bad("not a list", lambda: fit(name, make(name), X[0]) if name != "longitudinal" else fit(name, make(name), "abc"))
        t.bad("a dictionary", lambda: fit(name, make(name), {0: X[0], 1: X[1]}))
        k = rng.randint(1, len(X))
        t.bad("other number of features", lambda: fit(name, make(name), [x[:, :2] if i == k else x for i, x in enumerate(X)]), ValueError)
        t.bad("more features", lambda: fit(name, make(name), [np.column_stack([x, x[:, 0] ** 2]) if i == k else x for i, x in enumerate(X)]), ValueError)
        if name == "longitudinal":
            t.bad("other number of samples", lambda: fit(name, make(name), [x[:-1] if i == k else x for i, x in enumerate(X)]), ValueError)
        else:
            t.good("other number of samples", lambda: fit(name, make(name), [x[:-2] if i == k else x for i, x in enumerate(X)]))
        t.good("frames", lambda: fit(name, make(name), [pd.DataFrame(x) for x in X]))
    else:
        for what, Y in spoilt(rng, X):
            t.bad(what, lambda: fit(name, make(name), Y))
        t.good("frame", lambda: fit(name, make(name), pd.DataFrame(X)))
        t.good("nested list", lambda: fit(name, make(name), X.tolist()))


def case_bootstrap(m, rng, c):
    name = c["est"]
    t = Table(m, "bootstrap", name)
    X = data(rng, name)
    for v in (0, -1, -5, 1.5, "3", None, [2]):
        t.bad(f"n_sampling={v!r}", lambda: make(name).bootstrap(X, v))
    first = X[0] if isinstance(X, list) else X
    for what, Y in [s for s in spoilt(rng, first) if rng.rand() < 0.5]:
        Z = Y
        if isinstance(X, list):
            Z = [x.copy() for x in X]
            Z[rng.randint(len(Z))] = Y
        t.bad(what, lambda: make(name).bootstrap(Z, 1))
    if isinstance(X, list):
        t.bad("one group", lambda: make(name).bootstrap(X[:1], 1), ValueError)
        t.bad("no group", lambda: make(name).bootstrap([], 1), ValueError)
        t.bad("a dictionary", lambda: make(name).bootstrap({0: X[0], 1: X[1]}, 1), ValueError)
        t.bad("text for data", lambda: make(name).bootstrap("abc", 1), ValueError)
        t.bad("None for data", lambda: make(name).bootstrap(None, 1), ValueError)
        t.bad("other number of features", lambda: make(name).bootstrap([X[0], X[1][:, :2], *X[2:]], 1), ValueError)
    t.good("n_sampling=1", lambda: make(name).bootstrap(X, 1))
    t.good("n_sampling=np.int64(1)", lambda: make(name).bootstrap(X, np.int64(1)))


def case_param(m, rng, c):
    name = c["est"]
    t = Table(m, "parameter", name)
    X = data(rng, name)
    go = lambda **kw: fit(name, make(name, **kw), X)
    d = 2 if name in ("var", "varma") else 3
    neg = float(rng.choice([-1e-9, -0.01, -1.0, -100]))
    if name in ("direct", "kernel", "multi", "bottomup"):
        pk = -np.ones((d, d))
        for what, p in (("larger", -np.ones((d + 1, d + 1))), ("smaller", -np.ones((d - 1, d - 1))), ("not square", -np.ones((d, d + 1))), ("flat", -np.ones(d)), ("text", "abc"), ("cube", -np.ones((d, d, d)))):
            t.bad(f"prior_knowledge {what}", lambda: go(prior_knowledge=p))
        q = pk.copy()
        q[0, 0] = np.nan
        t.bad("prior_knowledge with NaN", lambda: go(prior_knowledge=q))
        q = pk.copy()
        i, j = rng.choice(d, 2, replace=False)
        q[i, j] = q[j, i] = 1
        t.bad("prior_knowledge cyclic", lambda: go(prior_knowledge=q), ValueError)
        q = pk.copy()
        for a, b in ((0, 1), (1, 2), (2, 0)):
            q[a, b] = 1
        t.bad("prior_knowledge cyclic through three", lambda: go(prior_knowledge=q), ValueError)
        t.good("prior_knowledge nested list", lambda: go(prior_knowledge=pk.astype(int).tolist()))
    if name == "highdim":
        for k, bad, good in (("J", (2, 1, 0, -3, 3.0, "3", None), (3, 5)), ("K", (0, -1, 1.5, "2", None), (1, 2)), ("alpha", (neg, 1.0000001, 2, "0.5", None), (0, 1, 0.0, 1.0, 0.3)), ("estimate_adj_mat", (1, 0, "True", None), (True, False))):
            for v in bad:
                t.bad(f"{k}={v!r}", lambda: go(**{k: v}))
            for v in good:
                t.good(f"{k}={v!r}", lambda: go(**{k: v}))
    if name == "resit":
        class NoFit:
            def predict(self, X):
                return X[:, 0]

        class NoPredict:
            def fit(self, X, y):
                return self

        for what, r in (("None", None), ("number", 3), ("class without fit", NoFit()), ("class without predict", NoPredict())):
            t.bad(f"regressor {what}", lambda: lingam.RESIT(regressor=r), ValueError)
        t.bad("no regressor", lambda: lingam.RESIT())
        t.bad(f"alpha={neg}", lambda: lingam.RESIT(regressor=LinearRegression(), alpha=neg), ValueError)
        for v in (0, 0.0, 1.0):
            t.good(f"alpha={v!r}", lambda: go(alpha=v))
    if name == "bottomup":
        class OnlyFit:
            def fit(self, X, y):
                return self

        class OnlyPredict:
            def predict(self, X):
                return np.zeros(len(X))

        for r in (OnlyFit(), OnlyPredict(), 3, "regressor"):
            t.bad(f"regressor {type(r).__name__}", lambda: make(name, regressor=r), ValueError)
        t.good("regressor tree", lambda: go(regressor=DecisionTreeRegressor(max_depth=2)))
        t.good("alpha=0", lambda: go(alpha=0))
        t.good("alpha=0.0", lambda: go(alpha=0.0))
        t.good("alpha=1.0", lambda: go(alpha=1.0))
    if name in ("bottomup", "camuv", "mgcamuv"):
        t.bad(f"alpha={neg}", lambda: make(name, alpha=neg), ValueError)
    if name in ("bottomup", "camuv", "mgcamuv", "rcd", "mgrcd"):
        for v in ("lingam", "HSIC", "", None, 1):
            t.bad(f"independence={v!r}", lambda: make(name, independence=v), ValueError)
        t.bad(f"ind_corr={neg}", lambda: make(name, ind_corr=neg), ValueError)
        t.bad(f"ind_corr={neg} with fcorr", lambda: make(name, ind_corr=neg, independence="fcorr"), ValueError)
        for v in ("hsic", "fcorr"):
            t.good(f"independence={v}", lambda: go(independence=v))
        t.good("ind_corr=0", lambda: go(independence="fcorr", ind_corr=0.0))
    if name in ("camuv", "mgcamuv"):
        for v in (0, -1, -7):
            t.bad(f"num_explanatory_vals={v}", lambda: make(name, num_explanatory_vals=v), ValueError)
        t.good("num_explanatory_vals=1", lambda: go(num_explanatory_vals=1))
        t.good("alpha=0", lambda: go(alpha=0))
    if name in ("rcd", "mgrcd"):
        for v in (0, -1, -7):
            t.bad(f"max_explanatory_num={v}", lambda: make(name, max_explanatory_num=v), ValueError)
        for k in ("cor_alpha", "ind_alpha", "shapiro_alpha"):
            t.bad(f"{k}={neg}", lambda: make(name, **{k: neg}), ValueError)
            t.good(f"{k}=0", lambda: go(**{k: 0}))
            t.good(f"{k}=1", lambda: go(**{k: 1.0}))
        for v in ("median", "", "Scott", None, 0.5):
            t.bad(f"bw_method={v!r}", lambda: make(name, bw_method=v), ValueError)
        for v in ("mdbs", "scott", "silverman"):
            t.good(f"bw_method={v}", lambda: go(bw_method=v))
        t.good("max_explanatory_num=1", lambda: go(max_explanatory_num=1))
    if name in ("var", "varma"):
        for v in ("DirectLiNGAM", lingam.DirectLiNGAM, lingam.RCD(), LinearRegression(), 5):
            t.bad(f"lingam_model={v!r}"[:60], lambda: go(lingam_model=v))
        for v in (lingam.DirectLiNGAM(), lingam.ICALiNGAM(random_state=0, max_iter=100)):
            t.good(f"lingam_model={type(v).__name__}", lambda: go(lingam_model=v))
        bad = np.zeros((1, d, d))
        bad[0, rng.randint(d), rng.randint(d)] = [np.nan, np.inf][rng.randint(2)]
        kw = {"ma_coefs": np.zeros((1, d, d))} if name == "varma" else {}
        t.bad("ar_coefs not finite", lambda: go(ar_coefs=bad, **kw))
        t.bad("ar_coefs of other size", lambda: go(ar_coefs=np.zeros((1, d + 1, d + 1)), **kw))
        t.good("ar_coefs", lambda: go(ar_coefs=np.zeros((1, d, d)), **kw))
        if name == "var":
            t.bad("lags=-1", lambda: go(lags=-1))
            t.bad("lags=text", lambda: go(lags="one"))
            for v in ("aic", "fpe", "hqic", "bic", None):
                t.good(f"criterion={v}", lambda: go(criterion=v))
        else:
            for v in ("aic", "hqic", "bic", None):
                t.good(f"criterion={v}", lambda: go(criterion=v))
    if name == "longitudinal":
        for what, p in (("3-dimensional", -np.ones((3, 2, 3))), ("2-dimensional", -np.ones((3, 3))), ("5-dimensional", -np.ones((1, 3, 2, 3, 3)))):
            t.bad(f"prior_knowledge {what}", lambda: make(name, prior_knowledge=p), ValueError)
        for what, s in (("T", (2, 2, 3, 3)), ("lags", (3, 3, 3, 3)), ("features", (3, 2, 4, 4)), ("not square", (3, 2, 3, 4))):
            t.bad(f"prior_knowledge wrong {what}", lambda: go(prior_knowledge=-np.ones(s)), ValueError)
        t.good("prior_knowledge", lambda: go(prior_knowledge=-np.ones((3, 2, 3, 3))))
        q = -np.ones((3, 2, 3, 3))
        q[int(rng.randint(3)), int(rng.randint(2)), int(rng.randint(3)), int(rng.randint(3))] = np.nan
        t.bad("prior_knowledge with NaN", lambda: go(prior_knowledge=q))
    if name == "lim":
        Z, G = rng.laplace(size=(60, 4)), np.array([[1, 0], [1, 0], [0, 1], [0, 1]])
        for v in ("xyz", "", None, 3):
            t.bad(f"latent factors loss_type={v!r}", lambda: lingam.LiNA(loss_type=v).fit(Z, G, np.ones((1, 2))), ValueError)
        for v in ("xyz", "", None, 3):
            t.bad(f"loss_type={v!r}", lambda: go(loss_type=v), ValueError)
        t.bad("dis_con flat", lambda: make(name).fit(X, np.array([0.0, 1.0, 1.0]), only_global=True))
        q = np.array([[0.0, 1.0, np.nan]])
        t.bad("dis_con with NaN", lambda: make(name).fit(X, q, only_global=True))
        t.bad("dis_con too short", lambda: make(name).fit(X, np.array([[0.0, 1.0]]), only_global=True))
        t.bad("dis_con too long", lambda: make(name).fit(X, np.array([[0.0, 1.0, 1.0, 0.0]]), only_global=True))


def case_query(m, rng, c):
    """methods of fitted and unfitted models"""
    X = gen.linear_data(rng, 50, 3, 0.7)[0]
    Y = X.copy()
    Y[rng.randint(50), rng.randint(3)] = np.nan
    G = [X, gen.linear_data(rng, 40, 3, 0.7)[0]]
    for name, model in (("direct", lingam.DirectLiNGAM().fit(X)), ("ica", lingam.ICALiNGAM(random_state=0).fit(X)), ("bottomup", lingam.BottomUpParceLiNGAM().fit(X)), ("rcd", lingam.RCD().fit(X))):
        t = Table(m, "query", name)
        t.bad("total effect: NaN", lambda: model.estimate_total_effect(Y, 0, 1))
        t.bad("total effect: flat", lambda: model.estimate_total_effect(X[:, 0], 0, 1))
        if name != "rcd":
            t.bad("total effect: index too large", lambda: model.estimate_total_effect(X, 0, 3))
            t.bad("total effect: cause too large", lambda: model.estimate_total_effect(X, 3, 0))
        t.bad("p-values: NaN", lambda: model.get_error_independence_p_values(Y))
        t.bad("p-values: other size", lambda: model.get_error_independence_p_values(X[:, :2]))
        t.good("total effect", lambda: model.estimate_total_effect(X, 0, 2))
    model = lingam.RESIT(regressor=LinearRegression()).fit(X)
    t = Table(m, "query", "resit")
    t.bad("p-values: NaN", lambda: model.get_error_independence_p_values(Y))
    t.good("p-values", lambda: model.get_error_independence_p_values(X))
    for name in ("multi", "mgrcd"):
        model = make(name).fit(G)
        t = Table(m, "query", name)
        t.bad("total effect: one group", lambda: model.estimate_total_effect(G[:1], 0, 1), ValueError)
        t.bad("total effect: not a list", lambda: model.estimate_total_effect(X, 0, 1), ValueError)
        t.bad("total effect: features", lambda: model.estimate_total_effect([X, G[1][:, :2]], 0, 1), ValueError)
        t.bad("total effect: NaN", lambda: model.estimate_total_effect([G[1], Y], 0, 1))
        t.bad("p-values: one group", lambda: model.get_error_independence_p_values(G[:1]), ValueError)
        t.bad("p-values: NaN", lambda: model.get_error_independence_p_values([G[1], Y]))
    for name in ("var", "varma"):
        model = make(name).fit(X)
        t = Table(m, "query", name)
        t.bad("total effect: NaN", lambda: model.estimate_total_effect(Y, 0, 1))
        t.bad("total effect: index too large", lambda: model.estimate_total_effect(X, 0, 3))
        res = model.bootstrap(X, 2)
        t.bad("paths: effect before cause", lambda: res.get_paths(0, 1, from_lag=0, to_lag=1), ValueError)
        t.bad("paths: same variable", lambda: res.get_paths(1, 1, from_lag=0, to_lag=0), ValueError)
        t.bad("paths: same variable, lagged", lambda: res.get_paths(1, 1, from_lag=1, to_lag=1), ValueError)
        for v in (0, -0.1, -5):
            t.bad(f"paths: min_causal_effect={v}", lambda: res.get_paths(0, 1, min_causal_effect=v), ValueError)
        t.good("paths", lambda: res.get_paths(0, 1, from_lag=1, to_lag=0))
        t.good("paths from itself", lambda: res.get_paths(1, 1, from_lag=1, to_lag=0))
    L = [gen.linear_data(rng, 40, 3, 0.7)[0] for _ in range(3)]
    t = Table(m, "query", "longitudinal")
    model = make("longitudinal").fit(L)
    res = model.bootstrap(L, 2)
    t.bad("paths: effect before cause", lambda: res.get_paths(0, 1, 2, 1), ValueError)
    t.bad("paths: same variable", lambda: res.get_paths(1, 1, 1, 1), ValueError)
    for v in (0, 0.0, -1e-9, -1):
        t.bad(f"paths: min_causal_effect={v}", lambda: res.get_paths(0, 1, 1, 2, min_causal_effect=v), ValueError)
    t.good("paths", lambda: res.get_paths(0, 1, 1, 2))
    t.good("paths of one variable", lambda: res.get_paths(1, 1, 1, 2))


def case_result(m, rng, c):
    """bootstrap results: tallies and probabilities"""
    S, d = 4, 3
    A = np.array([gen.dag(rng, d, 0.6)[0] for _ in range(S)])
    r = BootstrapResult(A, A.copy())
    T = 3
    X = [gen.linear_data(rng, 40, d, 0.7)[0] for _ in range(T)]
    lo = make("longitudinal").bootstrap(X, 2)
    for name, r in (("bootstrap", r), ("longitudinal", lo)):
        t = Table(m, "query", name)
        for v in (0, -1, 1.5, "2", [1]):
            t.bad(f"n_directions={v!r}", lambda: r.get_causal_direction_counts(n_directions=v))
            t.bad(f"n_dags={v!r}", lambda: r.get_directed_acyclic_graph_counts(n_dags=v))
        for v in (1, 10**6, None):
            t.good(f"n_directions={v!r}", lambda: r.get_causal_direction_counts(n_directions=v))
            t.good(f"n_dags={v!r}", lambda: r.get_directed_acyclic_graph_counts(n_dags=v))
        for v in (0, 0.0, float(rng.choice([-1e-9, -0.5, -30])), -np.inf):
            for f in ("get_causal_direction_counts", "get_directed_acyclic_graph_counts", "get_probabilities", "get_total_causal_effects"):
                t.bad(f"{f} min_causal_effect={v}", lambda: getattr(r, f)(min_causal_effect=v), ValueError)
        for v in (1e-12, 0.1, 1):
            for f in ("get_causal_direction_counts", "get_directed_acyclic_graph_counts", "get_probabilities", "get_total_causal_effects"):
                t.good(f"{f} min_causal_effect={v!r}", lambda: getattr(r, f)(min_causal_effect=v))
        if name == "bootstrap":
            for v in (0, 0.0, -1e-9, -0.5):
                t.bad(f"paths: min_causal_effect={v}", lambda: r.get_paths(0, 1, min_causal_effect=v), ValueError)
            t.good("paths", lambda: r.get_paths(0, 1))


def case_utilities(m, rng, c):
    t = Table(m, "utils", "utils")
    d = int(rng.choice([2, 3, 5]))
    B = gen.dag(rng, d, 1.0)[0]
    X = rng.laplace(size=(40, d))
    N = B.copy()
    N[0, 1] = np.nan
    wide, cube = np.ones((d, d + 1)), np.ones((d, d, d))
    inf = B.copy()
    inf[d - 1, 0] = np.inf
    thin = np.zeros((d + 1, d))
    thin[d] = 0.5
    flatter = np.zeros((d, d + 1))
    flatter[0, d] = 0.5
    for what, v in (("not square", wide), ("tall", thin), ("wide, acyclic", flatter), ("cube", cube), ("flat", np.ones(d)), ("text", "abc"), ("none", None), ("infinite", inf)):
        t.bad(f"calculate_total_effect {what}", lambda: utils.calculate_total_effect(v, 0, 1))
        t.bad(f"calculate_distance {what}", lambda: utils.calculate_distance_from_root_nodes(v))
        t.bad(f"evaluate_model_fit {what}", lambda: utils.evaluate_model_fit(v, X))
        t.bad(f"evaluate_model_fit {what}, one more column", lambda: utils.evaluate_model_fit(v, np.column_stack([X, X[:, 0] ** 2])))
    for what, a in (("negative", (-1, 0)), ("too large", (0, d)), ("cause too large", (d, 0)), ("equal", (1, 1)), ("equal, first", (0, 0)), ("equal, last", (d - 1, d - 1)), ("fraction", (0.5, 1)), ("text", ("0", 1)), ("none", (None, 1))):
        t.bad(f"calculate_total_effect index {what}", lambda: utils.calculate_total_effect(B, *a))
    t.good("calculate_total_effect last", lambda: utils.calculate_total_effect(B, 0, d - 1))
    t.good("calculate_total_effect numpy", lambda: utils.calculate_total_effect(B, np.int64(d - 1), np.int32(0)))
    t.good("calculate_total_effect unresolved", lambda: utils.calculate_total_effect(N, 0, 1))
    C = np.zeros((3, 3))
    C[1, 0] = C[2, 1] = 1.0
    t.bad("calculate_total_effect discrete on the way", lambda: utils.calculate_total_effect(C, 0, 2, is_continuous=[True, False, True]), ValueError)
    t.bad("calculate_total_effect discrete effect", lambda: utils.calculate_total_effect(C, 0, 2, is_continuous=[True, True, False]), ValueError)
    t.good("calculate_total_effect discrete cause", lambda: utils.calculate_total_effect(C, 0, 2, is_continuous=[False, True, True]))
    t.bad("calculate_total_effect short is_continuous", lambda: utils.calculate_total_effect(C, 0, 2, is_continuous=[True, True]))
    for v in (0, -1, 1.5, "1"):
        t.bad(f"max_distance={v!r}", lambda: utils.calculate_distance_from_root_nodes(B, v))
    t.good("max_distance=1", lambda: utils.calculate_distance_from_root_nodes(B, 1))
    R = np.ones((d, d)) - np.eye(d)
    t.bad("no root node", lambda: utils.calculate_distance_from_root_nodes(R), ValueError)
    if d > 2:  # with two nodes the cycle lies behind the target
        t.bad("cyclic paths", lambda: utils.find_all_paths(R, 0, 1), ValueError)
    t.bad("paths not square", lambda: utils.find_all_paths(wide, 0, 1))
    t.bad("fit: columns differ", lambda: utils.evaluate_model_fit(B, np.column_stack([X, X[:, 0]])), ValueError)
    t.bad("fit: fewer columns", lambda: utils.evaluate_model_fit(B, X[:, 1:]), ValueError)
    t.bad("fit: is_ordinal short", lambda: utils.evaluate_model_fit(B, X, is_ordinal=[0] * (d - 1)), ValueError)
    t.bad("fit: is_ordinal long", lambda: utils.evaluate_model_fit(B, X, is_ordinal=[0] * (d + 1)), ValueError)
    Y = X.copy()
    Y[rng.randint(40), rng.randint(d)] = [np.nan, np.inf][rng.randint(2)]
    t.bad("fit: data not finite", lambda: utils.evaluate_model_fit(B, Y))
    t.good("fit", lambda: utils.evaluate_model_fit(B, X, is_ordinal=[0] * d))
    for f in (utils.get_sink_variables, utils.get_exo_variables):
        for what, v in (("text", "abc"), ("flat", np.ones(d)), ("none", None)):
            t.bad(f"{f.__name__} {what}", lambda: f(v))
    t.bad("remove_effect NaN", lambda: utils.remove_effect(Y, [0]))
    t.bad("f_correlation sizes", lambda: utils.f_correlation(X[:, 0], X[:-1, 0]), ValueError)
    t.good("f_correlation", lambda: utils.f_correlation(X[:, 0], X[:, 1]))


def case_plots(m, rng, c):
    t = Table(m, "utils", "make_dot")
    d = int(rng.choice([2, 3, 5]))
    B = gen.dag(rng, d, 1.0)[0]
    dot, hl = utils.make_dot, utils.make_dot_highlight
    t.bad("not square", lambda: dot(np.ones((d, d + 1))), ValueError)
    t.bad("not square (tall)", lambda: dot(np.ones((d + 1, d))), ValueError)
    t.bad("text matrix", lambda: dot([["a"] * d] * d))
    t.bad("cube", lambda: dot(np.ones((d, d, d))))
    t.good("not square, allowed", lambda: dot(np.ones((d, d + 1)), ignore_shape=True))
    for k in (d - 1, d + 1, 0):
        t.bad(f"{k - d:+d} labels", lambda: dot(B, labels=[f"n{i}" for i in range(k)]), ValueError)
    t.bad("prediction coefficients without indices", lambda: dot(B, prediction_feature_indices=[0, 1], prediction_coefs=[1.0], prediction_target_label="y"), ValueError)
    t.bad("prediction importance of other length", lambda: dot(B, prediction_feature_indices=[0], prediction_feature_importance=[1.0, 2.0]), ValueError)
    t.bad("prediction importance too short", lambda: dot(B, prediction_feature_indices=[0, 1], prediction_feature_importance=[1.0]), ValueError)
    t.good("prediction importance", lambda: dot(B, prediction_feature_indices=[0, 1], prediction_feature_importance=[1.0, 2.0]))
    t.bad("more prediction coefficients", lambda: dot(B, prediction_feature_indices=[0], prediction_coefs=[1.0, 2.0], prediction_target_label="y"), ValueError)
    t.bad("prediction line of wrong length", lambda: dot(B, prediction_feature_indices=[0, 1], prediction_coefs=[1.0, 2.0, 3.0]), ValueError)
    for p in ([0, 1], "01", 3, (0,), ()):
        t.bad(f"path={p!r}", lambda: dot(B, path=p))
        t.bad(f"highlight path={p!r}", lambda: hl(B, 0, path=p))
    for p in ((-1, 0), (0, d + 1), (d + 1, 0), (0.5, 1), ("0", 1)):
        t.bad(f"path={p!r}", lambda: dot(B, path=p))
        t.bad(f"highlight path={p!r}", lambda: hl(B, 0, path=p))
    for v in ("no colour", 17):
        t.bad(f"path_color={v!r}", lambda: dot(B, path=(0, 1), path_color=v))
        t.bad(f"highlight path_color={v!r}", lambda: hl(B, 0, path=(0, 1), path_color=v))
    for v in (1, "yes"):
        t.bad(f"detect_cycle={v!r}", lambda: dot(B, detect_cycle=v), TypeError)
        t.bad(f"highlight detect_cycle={v!r}", lambda: hl(B, 0, detect_cycle=v), TypeError)
    t.good("path", lambda: dot(B, path=(0, d - 1)))
    for v in (-1, d, d + 4, 0.5, "0", None):
        t.bad(f"node_index={v!r}", lambda: hl(B, v))
    for v in (0, d - 1):
        t.good(f"node_index={v}", lambda: hl(B, v))
    t.bad("highlight not square", lambda: hl(np.ones((d, d + 1)), 0), ValueError)
    t.bad("highlight labels", lambda: hl(B, 0, labels=["a"] * (d + 1)))
    for k in ("max_dsc", "max_anc"):
        for v in (-1, 1.5, "1"):
            t.bad(f"{k}={v!r}", lambda: hl(B, 0, **{k: v}))
        t.good(f"{k}=0", lambda: hl(B, 0, **{k: 0}))
    t.bad("lower_limit=text", lambda: hl(B, 0, lower_limit="0.1"))
    for k in ("vmargin", "hmargin"):
        for v in (0, 0.99, -2, "2", None):
            t.bad(f"{k}={v!r}", lambda: hl(B, 0, **{k: v}))
        t.good(f"{k}=1", lambda: hl(B, 0, **{k: 1}))
    t.bad("draw_others=1", lambda: hl(B, 0, draw_others=1))
    X = pd.DataFrame(rng.randn(40, d), columns=[f"v{i}" for i in range(d)])
    t = Table(m, "utils", "effect plot")
    reg = LinearRegression()
    V = lambda *a, **k: utils.visualize_nonlinear_causal_effect(*a, **k)
    t.bad("array instead of a frame", lambda: V(X.to_numpy(), B, reg, "v0", "v1"), TypeError)
    t.bad("unknown cause", lambda: V(X, B, reg, "w", "v1"), ValueError)
    t.bad("unknown effect", lambda: V(X, B, reg, "v0", "w"), ValueError)
    t.bad("matrix of other size", lambda: V(X, np.zeros((d + 1, d + 1)), reg, "v0", "v1"))
    t.bad("matrix with NaN", lambda: V(X, np.full((d, d), np.nan), reg, "v0", "v1"))
    t.bad("text as result", lambda: V(X, "abc", reg, "v0", "v1"))
    K = X.copy()
    K["v0"] = pd.Categorical(["a", "b"] * 20)
    t.bad("categorical cause", lambda: V(K, B, reg, "v0", "v1"), ValueError)
    t.bad("regressor for a class", lambda: V(K, B, reg, "v1", "v0"), TypeError)
    t.bad("classifier for a number", lambda: V(X, B, LogisticRegression(), "v0", "v1"), TypeError)
    from sklearn.svm import LinearSVC
    t.bad("classifier without probabilities", lambda: V(K, B, LinearSVC(), "v1", "v0"))
    for v in ((95, 50, 5), [95, 50], [95, 50, 5, 1], [101, 50, 5], [95, 50, -1], 50):
        t.bad(f"percentile={v!r}", lambda: V(X, B, reg, "v0", "v1", percentile=v), TypeError)
    t.good("percentile=[100, 50, 0]", lambda: V(X, B, reg, "v0", "v1", percentile=[100, 50, 0]))
    for v in ("fig", 3):
        t.bad(f"fig={v!r}", lambda: V(X, B, reg, "v0", "v1", fig=v), TypeError)
    t.bad("position None", lambda: V(X, B, reg, "v0", "v1", cause_positions=[0.1, None]), TypeError)
    plt.close("all")


def case_imputation(m, rng, c):
    t = Table(m, "other", "imputation")
    X = gen.linear_data(rng, 40, 3, 0.7)[0]
    X[rng.rand(40, 3) < 0.1] = np.nan
    f = bootstrap_with_imputation
    for v in (0, -1, 1.5, "2", None):
        t.bad(f"n_sampling={v!r}", lambda: f(X, v))
        t.bad(f"n_repeats={v!r}", lambda: f(X, 1, n_repeats=v))
    for k in ("cd_model", "imp"):
        for v in ("abc", 3, LinearRegression(), lingam.MultiGroupDirectLiNGAM()):
            t.bad(f"{k}={type(v).__name__}", lambda: f(X, 1, **{k: v}), ValueError)
    for what, p in (("larger", -np.ones((4, 4))), ("flat", -np.ones(3)), ("not square", -np.ones((3, 4)))):
        t.bad(f"prior_knowledge {what}", lambda: f(X, 1, prior_knowledge=p), ValueError)
    Y = X.copy()
    Y[5, 1] = np.inf
    t.bad("infinite data", lambda: f(Y, 1))
    t.bad("flat data", lambda: f(X[:, 0], 1))

    def imputer(out):
        class I(BaseMultipleImputation):
            def fit_transform(self, X):
                return out(X)

        return I()

    fill = lambda X: np.where(np.isnan(X), 0.0, X) + 1e-3 * rng.randn(*X.shape)
    for what, o in (("cells left missing", lambda X: [X, X]), ("too few rows", lambda X: [fill(X)[:-1]] * 2), ("too many columns", lambda X: [np.column_stack([fill(X), fill(X)[:, 0]])] * 2), ("nothing", lambda X: None),
                    ("text", lambda X: "abc"), ("a single table", lambda X: fill(X))):
        t.bad(f"imputer returns {what}", lambda: f(X, 1, imp=imputer(o)))
    t.good("imputer", lambda: f(X, 1, imp=imputer(lambda X: [fill(X), fill(X)])))

    def model(out):
        class M(BaseMultiGroupCDModel):
            def before_imputation(self, X):
                pass

            def fit(self, X_list):
                return out(len(X_list))

        return M()

    A = lambda R: np.zeros((R, 3, 3))
    for what, o in (("no pair", lambda R: A(R)), ("only the order", lambda R: [0, 1, 2]), ("short order", lambda R: ([0, 1], A(R))), ("repeated order", lambda R: ([0, 1, 1], A(R))), ("order out of range", lambda R: ([0, 1, 3], A(R))),
                    ("small matrices", lambda R: ([0, 1, 2], np.zeros((R, 2, 2)))), ("text", lambda R: ("abc", A(R))), ("None", lambda R: None)):
        t.bad(f"model returns {what}", lambda: f(X, 1, n_repeats=2, cd_model=model(o)), ValueError)
    t.good("model", lambda: f(X, 1, n_repeats=2, cd_model=model(lambda R: ([2, 0, 1], A(R)))))
    t.good("model with one common matrix", lambda: f(X, 2, n_repeats=2, cd_model=model(lambda R: ([2, 0, 1], A(1)[0]))))


def case_effect(m, rng, c):
    t = Table(m, "other", "CausalEffect")
    X, B, order = gen.linear_data(rng, 60, 3, 1.0)
    fitted = lingam.DirectLiNGAM().fit(X)
    reg = LinearRegression().fit(np.delete(X, 2, 1), X[:, 2])
    CE = lingam.CausalEffect
    for what, v in (("not square", np.ones((3, 4))), ("flat", np.ones(3)), ("text", "abc"), ("number", 3), ("cyclic", np.ones((3, 3)) - np.eye(3)), ("two-cycle", np.array([[0, 1.0, 0], [1.0, 0, 0], [0, 0, 0]])), ("NaN", np.full((3, 3), np.nan)),
                    ("none", None), ("object", object())):
        t.bad(f"causal_model {what}", lambda: CE(v).estimate_effects_on_prediction(X, 2, reg))
    t.bad("model not fitted", lambda: CE(lingam.DirectLiNGAM()).estimate_effects_on_prediction(X, 2, reg))
    t.good("matrix", lambda: CE(B).estimate_effects_on_prediction(X, 2, reg))
    t.good("model", lambda: CE(fitted).estimate_effects_on_prediction(X, 2, reg))
    ce = CE(fitted)

    class Nothing:
        pass

    t.bad("pred_model without prediction", lambda: ce.estimate_effects_on_prediction(X, 2, Nothing()), ValueError)
    t.bad("optimal: pred_model not linear", lambda: ce.estimate_optimal_intervention(X, 2, RandomForestRegressor(n_estimators=2).fit(np.delete(X, 2, 1), X[:, 2]), 0, 1.0))
    t.bad("optimal: pred_model is a classifier", lambda: ce.estimate_optimal_intervention(X, 2, LogisticRegression().fit(np.delete(X, 2, 1), X[:, 2] > 0), 0, 1.0))
    Y = X.copy()
    Y[rng.randint(60), rng.randint(3)] = np.nan
    t.bad("data NaN", lambda: ce.estimate_effects_on_prediction(Y, 2, reg))
    t.bad("data flat", lambda: ce.estimate_effects_on_prediction(X[:, 0], 2, reg))
    t.bad("optimal: data NaN", lambda: ce.estimate_optimal_intervention(Y, 2, reg, 0, 1.0))
    t.good("effects", lambda: ce.estimate_effects_on_prediction(X, 2, reg))


def case_simulator(m, rng, c):
    t = Table(m, "other", "simulator")
    CS = lingam.CBSUnobsCommonCauseModel if False else lingam.CausalBasedSimulator
    X, B, order = gen.linear_data(rng, 60, 3, 1.0)
    X = pd.DataFrame(X, columns=["a", "b", "c"])
    new = lambda: CS()
    t.bad("run before train", lambda: new().run(), RuntimeError)
    t.bad("unknown algorithm", lambda: new().train(X, B, cd_algo_name="xyz"), ValueError)
    t.bad("algorithm not text", lambda: new().train(X, B, cd_algo_name=3), TypeError)
    t.bad("graph of other size", lambda: new().train(X, np.zeros((4, 4))))
    t.bad("graph not square", lambda: new().train(X, np.zeros((3, 4))))
    R = np.ones((3, 3)) - np.eye(3)
    t.bad("cyclic graph", lambda: new().train(X, R))
    t.bad("models not a dictionary", lambda: new().train(X, B, models=[LinearRegression()]), RuntimeError)
    t.bad("model for an unknown variable", lambda: new().train(X, B, models={"zz": LinearRegression()}), RuntimeError)
    t.good("train", lambda: new().train(X, B))
    s = new()
    s.train(X, B)
    n = len(X)
    t.bad("changing_exog not a dictionary", lambda: s.run(changing_exog=[1]), RuntimeError)
    t.bad("changing_exog unknown", lambda: s.run(changing_exog={"zz": np.zeros(n)}), RuntimeError)
    t.bad("changing_exog short", lambda: s.run(changing_exog={"a": np.zeros(n - 1)}), RuntimeError)
    t.bad("changing_exog long", lambda: s.run(changing_exog={"a": np.zeros(n + 1)}), RuntimeError)
    t.bad("changing_models unknown", lambda: s.run(changing_models={"zz": {"parent_names": [], "coef": []}}))
    t.bad("changing_models text", lambda: s.run(changing_models="abc"))
    leaf = ["a", "b", "c"][int(order[-1])]
    root = ["a", "b", "c"][int(order[0])]
    t.bad("changing_models unknown parent", lambda: s.run(changing_models={leaf: {"parent_names": ["zz"], "coef": [1.0]}}))
    t.bad("changing_models coefficients missing", lambda: s.run(changing_models={leaf: {"parent_names": [root]}}))
    t.bad("changing_models too many coefficients", lambda: s.run(changing_models={leaf: {"parent_names": [root], "coef": [1.0, 2.0]}}))
    t.bad("changing_models without parents", lambda: s.run(changing_models={leaf: {"coef": [1.0]}}))
    t.bad("changing_exog NaN", lambda: s.run(changing_exog={"a": np.full(n, np.nan)}))
    t.bad("changing_models closes a cycle", lambda: s.run(changing_models={root: {"parent_names": [leaf], "coef": [1.0]}}))
    t.bad("changing_models its own parent", lambda: s.run(changing_models={leaf: {"parent_names": [leaf], "coef": [1.0]}}))
    t.bad("changing_models no dictionary inside", lambda: s.run(changing_models={leaf: [[root], [1.0]]}))
    t.bad("changing_models key not text", lambda: s.run(changing_models={0: {"parent_names": [], "coef": []}}))
    t.bad("changing_models parents as tuple", lambda: s.run(changing_models={leaf: {"parent_names": (root,), "coef": [1.0]}}))
    t.bad("changing_models parents as text", lambda: s.run(changing_models={leaf: {"parent_names": root, "coef": [1.0]}}))
    t.bad("changing_models model None", lambda: s.run(changing_models={leaf: {"parent_names": [root], "model": None}}))
    t.bad("changing_models coefficients NaN", lambda: s.run(changing_models={leaf: {"parent_names": [root], "coef": [np.nan]}}))
    from sklearn.cluster import KMeans
    from sklearn.model_selection import GridSearchCV
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import LinearSVC
    Z = X[[root]].to_numpy()
    lab = (X[leaf] > X[leaf].median()).astype(int).to_numpy()
    grid = lambda e: GridSearchCV(e, {"fit_intercept": [True]}, cv=2)
    regs = {"plain": LinearRegression(), "pipeline": make_pipeline(StandardScaler(), LinearRegression()), "search": grid(LinearRegression())}
    clas = {"plain": LogisticRegression(), "pipeline": make_pipeline(StandardScaler(), LogisticRegression()), "search": grid(LogisticRegression())}
    nop = {"plain": LinearSVC(), "pipeline": make_pipeline(StandardScaler(), LinearSVC()), "search": grid(LinearSVC())}
    other = {"plain": KMeans(2, n_init=1), "pipeline": make_pipeline(KMeans(2, n_init=1), StandardScaler()), "transformer": StandardScaler()}
    XD = X.copy()
    XD[leaf] = lab
    disc = [v == leaf for v in X.columns]
    sd = new()
    sd.train(XD, B, is_discrete=disc)
    for k in regs:
        t.bad(f"{k} classifier for a number", lambda: new().train(X, B, models={leaf: clas[k]}), RuntimeError)
        t.bad(f"{k} regressor for a class", lambda: new().train(XD, B, models={leaf: regs[k]}, is_discrete=disc), RuntimeError)
        t.bad(f"{k} classifier without probabilities", lambda: new().train(XD, B, models={leaf: nop[k]}, is_discrete=disc), RuntimeError)
        t.good(f"{k} regressor", lambda: new().train(X, B, models={leaf: regs[k]}))
        t.good(f"{k} classifier", lambda: new().train(XD, B, models={leaf: clas[k]}, is_discrete=disc))
        t.bad(f"{k} classifier in place of a number's model", lambda: s.run(changing_models={leaf: {"parent_names": [root], "model": clas[k].fit(Z, lab)}}), RuntimeError)
        t.bad(f"{k} regressor in place of a class's model", lambda: sd.run(changing_models={leaf: {"parent_names": [root], "model": regs[k].fit(Z, lab)}}), RuntimeError)
        t.good(f"{k} replaced regressor", lambda: s.run(changing_models={leaf: {"parent_names": [root], "model": regs[k].fit(Z, X[leaf])}}))
        t.good(f"{k} replaced classifier", lambda: sd.run(changing_models={leaf: {"parent_names": [root], "model": clas[k].fit(Z, lab)}}))
    for k, v in other.items():
        t.bad(f"{k} of another kind for a number", lambda: new().train(X, B, models={leaf: v}), RuntimeError)
    t.bad("models: number", lambda: new().train(X, B, models={leaf: 3}), RuntimeError)

    class Odd(LogisticRegression):
        predict_proba = None

    t.bad("probabilities not callable", lambda: new().train(XD, B, models={leaf: Odd()}, is_discrete=disc), RuntimeError)
    t.bad("changing_exog of a class", lambda: sd.run(changing_exog={leaf: np.zeros(n)}), RuntimeError)
    XN = X.copy()
    XN.iloc[rng.randint(n), rng.randint(3)] = [np.nan, np.inf][rng.randint(2)]
    t.bad("data not finite", lambda: new().train(XN, B))
    G = B.copy()
    G[int(order[1]), int(order[0])] = np.nan
    t.bad("unresolved pair for an algorithm without", lambda: new().train(X, G))
    t.good("unresolved pair", lambda: new().train(X, G, cd_algo_name="BottomUpParceLiNGAM"))
    for what, v in (("larger", np.zeros((4, 4))), ("smaller", np.zeros((2, 2))), ("not square", np.zeros((3, 4))), ("flat", np.zeros(3)), ("infinite", np.where(B != 0, np.inf, 0)), ("text", "abc"), ("cube", np.zeros((1, 3, 3))), ("cyclic", R)):
        for algo in ("DirectLiNGAM", "ICALiNGAM", "BottomUpParceLiNGAM"):
            t.bad(f"{algo} graph {what}", lambda: new().train(X, v, cd_algo_name=algo), ValueError)
    T2 = np.zeros((2, 3, 3))
    T2[0], T2[1] = B, 0.2
    t.good("time series", lambda: new().train(X, T2, cd_algo_name="VARLiNGAM"))
    bad = T2.copy()
    bad[1, 0, 0] = [np.nan, np.inf][rng.randint(2)]
    cyc = T2.copy()
    cyc[0] = R
    for what, v in (("flat", B), ("larger", np.zeros((2, 4, 4))), ("not square", np.zeros((2, 3, 4))), ("smaller", np.zeros((2, 2, 2))), ("four-dimensional", T2[None]), ("not finite", bad), ("cyclic", cyc), ("text", "abc")):
        t.bad(f"time series graph {what}", lambda: new().train(X, v, cd_algo_name="VARLiNGAM"), ValueError)
    t.good("changing_exog", lambda: s.run(changing_exog={"a": np.zeros(n)}))
    t.good("changing_models", lambda: s.run(changing_models={leaf: {"parent_names": [root], "coef": [1.0]}}))


def case_generator(m, rng, c):
    t = Table(m, "other", "generator")
    n = 40
    X = pd.DataFrame(rng.randn(n, 4), columns=list("abcd"))
    K = X.copy()
    K["a"] = pd.Categorical(["u", "v"] * 20)
    g = CausalDataGenerator
    t.bad("array", lambda: g().fit(X.to_numpy(), "a", "b"), TypeError)
    t.bad("unknown cause", lambda: g().fit(X, "z", "b"), ValueError)
    t.bad("unknown effect", lambda: g().fit(X, "a", "z"), ValueError)
    t.bad("unknown adjustment", lambda: g().fit(X, "a", "b", adjustments=["z"]))
    Y = X.copy()
    Y.iloc[rng.randint(n), rng.randint(4)] = np.nan
    t.bad("NaN", lambda: g().fit(Y, "a", "b"))
    for col in "abcd":
        Y = X.copy()
        Y.loc[Y.index[rng.randint(n)], col] = [np.nan, np.inf][rng.randint(2)]
        t.bad(f"not finite in {col}", lambda: g().fit(Y, "a", "b", adjustments=["c"]))
    t.bad("regressor for a category", lambda: g().fit(K, "a", "b", adjustments=["c"], model_cause=LinearRegression()), TypeError)
    t.bad("regressor for a category effect", lambda: g().fit(K, "b", "a", model_effect=LinearRegression()), TypeError)
    t.bad("classifier for a number", lambda: g().fit(X, "a", "b", adjustments=["c"], model_cause=LogisticRegression()), TypeError)
    t.bad("classifier for a number effect", lambda: g().fit(X, "a", "b", model_effect=LogisticRegression()), TypeError)
    from sklearn.svm import LinearSVC
    t.bad("classifier without probabilities", lambda: g().fit(K, "a", "b", adjustments=["c"], model_cause=LinearSVC()), RuntimeError)
    t.bad("classifier without probabilities for the effect", lambda: g().fit(K, "b", "a", model_effect=LinearSVC()), RuntimeError)

    class Odd(LogisticRegression):
        predict_proba = None

    class Boom(LinearRegression):
        def fit(self, X, y):
            raise KeyError("boom")

    t.bad("probabilities not callable", lambda: g().fit(K, "a", "b", adjustments=["c"], model_cause=Odd()), RuntimeError)
    t.bad("model that cannot be fitted", lambda: g().fit(X, "a", "b", adjustments=["c"], model_cause=Boom()), RuntimeError)
    t.bad("effect model that cannot be fitted", lambda: g().fit(X, "a", "b", model_effect=Boom()), RuntimeError)
    s = g().fit(X, "a", "b", adjustments=["c"])
    for k in ("interv_endog", "interv_exog"):
        t.bad(f"{k} not a dictionary", lambda: s.generate(**{k: [1]}), TypeError)
        t.bad(f"{k} unknown", lambda: s.generate(**{k: {"d": np.zeros(n)}}), ValueError)
        t.bad(f"{k} key not text", lambda: s.generate(**{k: {1: np.zeros(n)}}), TypeError)
        for w in (n - 1, n + 1, 1):
            t.bad(f"{k} of length {w - n:+d}", lambda: s.generate(**{k: {"a": np.zeros(w)}}), ValueError)
        t.bad(f"{k} with NaN", lambda: s.generate(**{k: {"a": np.full(n, np.nan)}}))
        t.bad(f"{k} of the effect with NaN", lambda: s.generate(**{k: {"b": np.full(n, np.nan)}}))
        t.bad(f"{k} of the effect with infinity", lambda: s.generate(**{k: {"b": np.where(np.arange(n) == n - 1, np.inf, 0)}}))
        t.good(k, lambda: s.generate(**{k: {"a": np.zeros(n)}}))
    for k in ("cause_model", "effect_model"):
        t.bad(f"{k} not callable", lambda: s.generate(**{k: 3}), TypeError)

        def boom(X, e, a):
            raise KeyError("boom")

        t.bad(f"{k} raises", lambda: s.generate(**{k: boom}), RuntimeError)
        t.good(k, lambda: s.generate(**{k: lambda X, e, a: np.zeros(n)}))


def case_tuner(m, rng, c):
    t = Table(m, "other", "tuner")
    X = gen.linear_data(rng, 24, 2, 1.0)[0]

    class Half:
        def fit(self, X):
            self.adjacency_matrix_ = np.zeros((2, 2))
            return self

    T = lambda **k: OutOfSampleCausalTuning(**dict({"cv": 2, "random_state": 0, "sparsity_penalty": False}, **k))
    ok = [{"model": Half}]
    for what, v in (("a dictionary", {"model": Half}), ("None", None), ("empty", []), ("elements", [Half]), ("unknown key", [{"model": Half, "xyz": 1}]), ("no model", [{}]), ("only arguments", [{"init_kwargs": {}}]),
                    ("model not callable", [{"model": 3}]), ("init_kwargs", [{"model": Half, "init_kwargs": []}]), ("fit_kwargs", [{"model": Half, "fit_kwargs": 3}]), ("all_others", [{"all_others": 1}]), ("second", ok + [{"model": "abc"}])):
        t.bad(f"configs {what}", lambda: T().fit(X, v), (TypeError, ValueError))
    for v in (0.0, 1.0, -0.1, 1.5, "0.05", 1, None):
        t.bad(f"thr={v!r}", lambda: T(thr=v).fit(X, ok))
    for v in (1, 0, "yes", None):
        t.bad(f"sparsity_penalty={v!r}", lambda: T(sparsity_penalty=v).fit(X, ok))
    for v in (1, 0, -2, 1.5, "3"):
        t.bad(f"cv={v!r}", lambda: T(cv=v).fit(X, ok))
    t.bad("random_state", lambda: T(random_state="abc").fit(X, ok))
    t.bad("one feature", lambda: T().fit(X[:, :1], ok))
    Y = X.copy()
    Y[3, 1] = np.nan
    t.bad("NaN", lambda: T().fit(Y, ok))
    t.bad("result before fit", lambda: T().best_config_index_)
    t.bad("scores before fit", lambda: T().scores_)
    t.good("fit", lambda: T(thr=0.999).fit(X, ok))
