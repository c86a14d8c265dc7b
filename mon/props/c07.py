"""C07: caller's data and configuration objects are never modified (argument write-sanitizer)."""
import contextlib
import hashlib
import io

import numpy as np
import pandas as pd
import lingam
from lingam import utils
from lingam.hsic import hsic_test_gamma
from lingam.tools import bootstrap_with_imputation
from lingam.experimental import CausalDataGenerator, OutOfSampleCausalTuning
from sklearn.linear_model import LinearRegression, LogisticRegression

from mon import gen
from mon.props.c02 import make_pk

RULE = (
    "every public entry point is called with digested arguments (arrays, read-only arrays, integer arrays, lists, data frames, "
    "dictionaries); the digest is recomputed after the call; results are digested before and after each query; "
    "non-trivial: a guarded call with at least one mutable argument; distinct by (entry point, container, argument digest)"
)
REQUIRED = {"arguments-unchanged": 2500, "results-unchanged-by-query": 1500, "old-results-unchanged-by-refit": 60}
SLOW_FIRST = ["imputation", "lim", "varma", "camuv", "oct", "lina"]


def cases(seed, tier):
    def fl(i, r):
        return {"box": ["array", "readonly", "df", "list", "int", "forder"][i % 6]}

    return gen.spread(seed, tier, [
        ("cross", 150, 1000, lambda i, r: dict(fl(i // 7, r), est=["direct", "kernel", "ica", "highdim", "resit", "rcd", "bottomup"][i % 7])),
        ("camuv", 10, 60, fl), ("groups", 30, 200, lambda i, r: dict(fl(i // 3, r), est=["multi", "mgrcd", "mgcamuv"][i % 3])),
        ("var", 36, 240, fl), ("varma", 5, 24, fl), ("longitudinal", 24, 160, fl), ("lim", 6, 36, fl), ("lina", 4, 16, fl),
        ("utils", 60, 600, fl), ("effect", 30, 200, fl), ("simulator", 42, 300, fl), ("imputation", 5, 30, fl), ("cdg", 24, 160, fl), ("oct", 4, 20, fl),
        ("visual", 6, 30, fl), ("results", 40, 300, None),
    ])


def digest(o, h=None, depth=0):
    top = h is None
    h = hashlib.blake2b(digest_size=12) if top else h
    if isinstance(o, np.ndarray):
        h.update(f"nd{o.dtype}{o.shape}{o.flags.writeable}".encode())
        if o.dtype == object:
            for v in o.ravel():
                digest(v, h, depth + 1)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (pd.DataFrame, pd.Series)):
        h.update(f"df{o.shape}{list(o.index)}{list(getattr(o, 'columns', []))}{getattr(o, 'dtypes', None)}".encode())
        for v in np.asarray(o.astype(object)).ravel():
            h.update(repr(v).encode())
    elif isinstance(o, dict):
        h.update(b"dict")
        for k in o:
            h.update(repr(k).encode())
            digest(o[k], h, depth + 1)
    elif isinstance(o, (list, tuple)):
        h.update(f"{type(o).__name__}{len(o)}".encode())
        for v in o:
            digest(v, h, depth + 1)
    elif isinstance(o, (set, frozenset)):
        h.update(repr(sorted(map(repr, o))).encode())
    elif isinstance(o, (int, float, str, bool, np.generic)) or o is None:
        h.update(repr(o).encode())
    else:
        h.update(type(o).__name__.encode())  # opaque objects (models, callables) are outside the property
    return h.hexdigest() if top else None


def results_of(obj):
    """public results of a model or result object"""
    out = {}
    for k in dir(type(obj)):
        if k.endswith("_") and not k.startswith("_"):
            try:
                out[k] = getattr(obj, k)
            except Exception:
                pass
    return out


class Guard:
    def __init__(self, m):
        self.m = m

    def __call__(self, name, fn, *a, **k):
        """guarded call; `watch` objects may not change either"""
        watch = k.pop("watch", None)
        before = digest((a, k))
        w0 = digest(results_of(watch)) if watch is not None else None
        with contextlib.redirect_stdout(io.StringIO()):
            r = fn(*a, **k)
        self.m.check("arguments-unchanged", digest((a, k)) == before, tag=name)
        if watch is not None:
            self.m.check("results-unchanged-by-query", digest(results_of(watch)) == w0, tag=name)
        self.m.state(name, before)
        return r


def box(rng, X, kind):
    if kind == "int":
        return np.round(X / X.std(0) * 50).astype(int)
    return {"array": lambda: X.copy(), "readonly": lambda: gen._ro(X), "forder": lambda: np.asfortranarray(X), "list": lambda: X.tolist(),
            "df": lambda: pd.DataFrame(X, columns=[f"c{i}" for i in range(X.shape[1])], index=np.arange(len(X))[::-1])}[kind]()


def query_boot(g, rs, d, rng, multi=False):
    for r in rs if multi else [rs]:
        g("get_causal_direction_counts", r.get_causal_direction_counts, n_directions=3, min_causal_effect=0.01, split_by_causal_effect_sign=True, watch=r)
        cdc = g("get_causal_direction_counts", r.get_causal_direction_counts, watch=r)
        dag = g("get_directed_acyclic_graph_counts", r.get_directed_acyclic_graph_counts, n_dags=2, watch=r)
        g("get_directed_acyclic_graph_counts", r.get_directed_acyclic_graph_counts, split_by_causal_effect_sign=True, watch=r)
        g("get_probabilities", r.get_probabilities, watch=r)
        g("get_total_causal_effects", r.get_total_causal_effects, watch=r)
        try:
            g("get_paths", r.get_paths, 0, d - 1, watch=r)
        except ValueError:
            pass  # cyclic replicate
        g("print_causal_directions", utils.print_causal_directions, cdc, 3, labels=[f"x{i}" for i in range(np.shape(r.adjacency_matrices_)[-1])], watch=r)
        g("print_dagc", utils.print_dagc, dag, 3, watch=r)


def case_cross(m, rng, c):
    g = Guard(m)
    est = c["est"]
    d = int(rng.choice([2, 3, 4]))
    X = box(rng, gen.linear_data(rng, int(rng.choice([30, 45, 45, 70, 120])), d, 0.7)[0], c["box"])
    pk = make_pk(rng, d, "random")
    k = rng.randint(5)
    pk = pk.tolist() if k == 0 else pk.astype(float) if k < 3 else np.asfortranarray(pk, dtype=float) if k == 3 else pk
    mk = {
        "direct": lambda: g("DirectLiNGAM", lingam.DirectLiNGAM, prior_knowledge=pk, apply_prior_knowledge_softly=bool(rng.rand() < 0.4)),
        "kernel": lambda: lingam.DirectLiNGAM(measure="kernel"),
        "ica": lambda: lingam.ICALiNGAM(random_state=1, max_iter=100),
        "highdim": lambda: lingam.HighDimDirectLiNGAM(),
        "resit": lambda: lingam.RESIT(regressor=LinearRegression(), alpha=0.05),
        "rcd": lambda: lingam.RCD(shapiro_alpha=1.0, cor_alpha=0.1, ind_alpha=0.001, MLHSICR=bool(rng.rand() < 0.3)),
        "bottomup": lambda: g("BottomUp", lingam.BottomUpParceLiNGAM, prior_knowledge=pk, alpha=float(rng.choice([0.0, 0.3]))),
    }[est]
    model = mk()
    g(est + ".fit", model.fit, X)
    if est in ("direct", "bottomup"):
        h = digest(pk)
        model.fit(X)
        m.check("arguments-unchanged", digest(pk) == h, tag=est + ".prior_knowledge")
    g(est + ".estimate_total_effect", model.estimate_total_effect, X, 0, d - 1, watch=model)
    if hasattr(model, "estimate_total_effect2"):
        try:
            g(est + ".estimate_total_effect2", model.estimate_total_effect2, 0, d - 1, watch=model)
        except ValueError:
            pass
    g(est + ".get_error_independence_p_values", model.get_error_independence_p_values, X, watch=model)
    old = results_of(model)
    h = digest(old)
    X2 = box(rng, gen.linear_data(rng, 50, d, 0.7)[0], c["box"])
    model.fit(X2)
    m.check("old-results-unchanged-by-refit", digest(old) == h, tag=est)
    try:
        r = g(est + ".bootstrap", model.bootstrap, X, 3)
    except ValueError as e:
        if "cyclic" in str(e):
            m.skip("cyclic-replicate")
            return
        raise
    query_boot(g, r, d, rng)
    m.check("old-results-unchanged-by-refit", digest(old) == h, tag=est + "-bootstrap")


def case_camuv(m, rng, c):
    g = Guard(m)
    X = box(rng, gen.linear_data(rng, 40, 3, 0.7)[0], c["box"])
    pk = [(0, 1), (2, 1)]
    model = g("CAMUV", lingam.CAMUV, alpha=0.05, prior_knowledge=pk)
    h = digest(pk)
    g("CAMUV.fit", model.fit, X)
    m.check("arguments-unchanged", digest(pk) == h, tag="camuv.prior_knowledge")
    if hasattr(model, "bootstrap"):
        query_boot(g, g("CAMUV.bootstrap", model.bootstrap, X, 2), 3, rng)


def case_groups(m, rng, c):
    g = Guard(m)
    est = c["est"]
    d = 3
    B, o = gen.dag(rng, d, 0.8)
    Xs = [box(rng, gen.linear_data(rng, 40 + 5 * k, d, B=B, order=o)[0], c["box"]) for k in range(int(rng.choice([2, 3, 4])))]
    pk = make_pk(rng, d, "random").astype([int, float][rng.randint(2)])
    if est == "multi":
        model = g("MultiGroupDirectLiNGAM", lingam.MultiGroupDirectLiNGAM, prior_knowledge=pk)
    elif est == "mgrcd":
        model = lingam.MultiGroupRCD(shapiro_alpha=1.0, cor_alpha=0.1, ind_alpha=0.001)
    else:
        model = g("MultiGroupCAMUV", lingam.MultiGroupCAMUV, alpha=0.05, prior_knowledge=[(0, 1)])
    h = digest(pk)
    g(est + ".fit", model.fit, Xs)
    m.check("arguments-unchanged", digest(pk) == h, tag=est + ".prior_knowledge")
    if hasattr(model, "estimate_total_effect"):
        g(est + ".estimate_total_effect", model.estimate_total_effect, Xs, 0, 1, watch=model)
    if hasattr(model, "estimate_total_effect2"):
        try:
            g(est + ".estimate_total_effect2", model.estimate_total_effect2, 0, 1, watch=model)
        except ValueError:
            pass
    if hasattr(model, "get_error_independence_p_values"):
        g(est + ".get_error_independence_p_values", model.get_error_independence_p_values, Xs, watch=model)
    old = results_of(model)
    h = digest(old)
    if not hasattr(model, "bootstrap"):
        return
    try:
        r = g(est + ".bootstrap", model.bootstrap, Xs, 2)
    except ValueError as e:
        if "cyclic" in str(e):
            return
        raise
    m.check("old-results-unchanged-by-refit", digest(old) == h, tag=est + "-bootstrap")
    query_boot(g, r, d, rng, multi=isinstance(r, list))


def case_var(m, rng, c):
    g = Guard(m)
    d = int(rng.choice([2, 3]))
    X = box(rng, gen.var_data(rng, 60, d, 1)[0], c["box"])
    kw = {}
    if rng.rand() < 0.4:
        kw["ar_coefs"] = rng.uniform(-0.3, 0.3, (2, d, d)) * rng.choice([1, 1, 0, 1e-6, -1e-12], (2, d, d))
        kw["lags"] = 2
        if rng.rand() < 0.5:
            kw["ar_coefs"] = kw["ar_coefs"].tolist()
    model = g("VARLiNGAM", lingam.VARLiNGAM, prune=bool(rng.rand() < 0.5), **kw)
    h = digest(kw)
    g("VAR.fit", model.fit, X)
    m.check("arguments-unchanged", digest(kw) == h, tag="VAR.ar_coefs")
    n = np.asarray(X).shape[1]
    g("VAR.estimate_total_effect", model.estimate_total_effect, X, 0, 1, from_lag=1, watch=model)
    g("VAR.estimate_total_effect2", model.estimate_total_effect2, n, 0, 1, from_lag=1, watch=model)
    g("VAR.get_error_independence_p_values", model.get_error_independence_p_values, watch=model)
    old = results_of(model)
    ho = digest(old)
    r = g("VAR.bootstrap", model.bootstrap, X, 2)
    m.check("old-results-unchanged-by-refit", digest(old) == ho, tag="var-bootstrap")
    m.check("arguments-unchanged", digest(kw) == h, tag="VAR.ar_coefs-bootstrap")
    g("VAR.get_paths", r.get_paths, 0, 1, from_lag=1, watch=r)
    query_boot(g, r, d, rng)


def case_varma(m, rng, c):
    g = Guard(m)
    X = box(rng, gen.var_data(rng, 60, 2, 1)[0], c["box"])
    kw = {}
    if rng.rand() < 0.5:
        kw = {k: rng.uniform(-0.3, 0.3, (1, 2, 2)) * rng.choice([1, 1, 0, 1e-6, -1e-12], (1, 2, 2)) for k in ("ar_coefs", "ma_coefs")}
    h = digest(kw)
    model = lingam.VARMALiNGAM(order=(1, 1), criterion=None, prune=bool(rng.rand() < 0.5), **kw)
    g("VARMA.fit", model.fit, X)
    m.check("arguments-unchanged", digest(kw) == h, tag="VARMA.coefs")
    E = np.asarray(model.residuals_).copy()
    E = np.vstack([np.zeros((60 - len(E), 2)), E])
    g("VARMA.estimate_total_effect", model.estimate_total_effect, X, E, 0, 1, from_lag=1, watch=model)
    g("VARMA.get_error_independence_p_values", model.get_error_independence_p_values, watch=model)
    r = g("VARMA.bootstrap", model.bootstrap, X, 1)
    query_boot(g, r, 2, rng)


def case_longitudinal(m, rng, c):
    from mon.props.c01 import longitudinal_series

    g = Guard(m)
    d, T = 2, 3
    Xs = [box(rng, np.asarray(x), c["box"]) for x in longitudinal_series(rng, 50, d, T, 1)[0]]
    pk = np.full((T, 2, d, d), [-1, -1.0][rng.randint(2)])
    pk[1, 0, 0, 1] = 0
    pk[2, 1, 1, 0] = 0
    model = g("LongitudinalLiNGAM", lingam.LongitudinalLiNGAM, n_lags=1, prior_knowledge=pk if rng.rand() < 0.6 else None)
    h = digest(pk)
    g("Longitudinal.fit", model.fit, Xs)
    m.check("arguments-unchanged", digest(pk) == h, tag="longitudinal.prior_knowledge")
    g("Longitudinal.estimate_total_effect", model.estimate_total_effect, Xs, 1, 0, 2, 1, watch=model)
    g("Longitudinal.estimate_total_effect2", model.estimate_total_effect2, 1, 0, 2, 1, watch=model)
    g("Longitudinal.get_error_independence_p_values", model.get_error_independence_p_values, watch=model)
    old = results_of(model)
    ho = digest(old)
    r = g("Longitudinal.bootstrap", model.bootstrap, Xs, 2)
    m.check("old-results-unchanged-by-refit", digest(old) == ho, tag="longitudinal-bootstrap")
    for f, kw in [("get_causal_direction_counts", {}), ("get_causal_direction_counts", dict(n_directions=2, min_causal_effect=0.1, split_by_causal_effect_sign=True)),
                  ("get_directed_acyclic_graph_counts", {}), ("get_directed_acyclic_graph_counts", dict(split_by_causal_effect_sign=True)),
                  ("get_probabilities", {}), ("get_total_causal_effects", {})]:
        if hasattr(r, f):
            g("Longitudinal." + f, getattr(r, f), watch=r, **kw)
    g("Longitudinal.get_paths", r.get_paths, 0, 1, 1, 2, watch=r)


def case_lim(m, rng, c):
    g = Guard(m)
    X = gen.linear_data(rng, 60, 2, 0.9)[0]
    X[:, 1] = (X[:, 1] > 0).astype(float)
    X = box(rng, X, c["box"] if c["box"] != "int" else "array")
    dis = np.array([[1.0, 0.0]])
    model = lingam.LiM(w_threshold=0.1)
    g("LiM.fit", model.fit, X, dis, only_global=bool(rng.rand() < 0.5))
    old = results_of(model)
    h = digest(old)
    model.fit(X, dis, only_global=True)
    m.check("old-results-unchanged-by-refit", digest(old) == h, tag="lim")


def case_lina(m, rng, c):
    g = Guard(m)
    n = 60
    f = np.column_stack([gen.noise(rng, "uniform", n)] * 2)
    f[:, 1] = 0.8 * f[:, 0] + gen.noise(rng, "uniform", n)
    X = np.column_stack([f[:, 0] + 0.1 * rng.normal(size=n), 0.7 * f[:, 0] + 0.1 * rng.normal(size=n), f[:, 1] + 0.1 * rng.normal(size=n), 0.6 * f[:, 1] + 0.1 * rng.normal(size=n)])
    X = (X - X.mean(0)) / X.std(0)
    G_sign = np.array([[1.0, 0], [1, 0], [0, 1], [0, 1]])
    model = lingam.LiNA(w_threshold=0.1, max_iter=20)
    scale = np.array([[1.0, 1.0]])
    try:
        g("LiNA.fit", model.fit, X, G_sign, scale)
        model.fit(X[::-1].copy(), G_sign, scale)
        model.fit(X, G_sign, scale)
    except np.linalg.LinAlgError:
        m.skip("singular factor solution")
        return
    old = results_of(model)
    h = digest(old)
    model.fit(X[::-1].copy(), G_sign, scale)
    m.check("old-results-unchanged-by-refit", digest(old) == h, tag="lina")


def case_utils(m, rng, c):
    g = Guard(m)
    d = int(rng.choice([3, 4, 5]))
    X0, B, _ = gen.linear_data(rng, 45, d, 0.6)
    X = box(rng, X0, c["box"])
    A = B.copy()
    Bb = A if rng.rand() < 0.5 else A.tolist() if c["box"] == "list" else A
    labels = [f"v{i}" for i in range(d)]
    g("make_prior_knowledge", utils.make_prior_knowledge, d, exogenous_variables=[0], sink_variables=[d - 1], paths=[[1, 2]], no_paths=[[2, 1]])
    arr = np.asarray(X) if not isinstance(X, list) else np.array(X)
    g("remove_effect", utils.remove_effect, X if not isinstance(X, pd.DataFrame) else X, [0], return_coefs=bool(rng.rand() < 0.5))
    g("predict_adaptive_lasso", utils.predict_adaptive_lasso, arr, [0, 1], 2)
    g("get_sink_variables", utils.get_sink_variables, A)
    g("get_exo_variables", utils.get_exo_variables, A)
    g("find_all_paths", utils.find_all_paths, A, 0, d - 1, min_causal_effect=0.2)
    N = A.copy()
    i, j = 0, 1
    if N[i, j] == 0 and N[j, i] == 0:
        N[i, j] = N[j, i] = np.nan
    g("find_all_paths", utils.find_all_paths, N, 0, d - 1)
    g("calculate_total_effect", utils.calculate_total_effect, Bb, 0, d - 1, is_continuous=[True] * d)
    g("calculate_total_effect", utils.calculate_total_effect, N, 0, d - 1)
    g("calculate_distance_from_root_nodes", utils.calculate_distance_from_root_nodes, Bb)
    g("calculate_distance_from_root_nodes", utils.calculate_distance_from_root_nodes, N)
    g("likelihood_i", utils.likelihood_i, np.asarray(arr, float).T, 1, A[1], 0.1)
    g("variance_i", utils.variance_i, np.asarray(arr, float).T, 1, A[1])
    g("log_p_super_gaussian", utils.log_p_super_gaussian, np.asarray(arr, float)[:, 0])
    g("extract_ancestors", utils.extract_ancestors, arr, shapiro_alpha=1.0)
    g("f_correlation", utils.f_correlation, arr[:, [0]], arr[:, [1]])
    g("hsic_test_gamma", hsic_test_gamma, arr[:, [0]], arr[:, [1]], bw_method=["mdbs", "scott"][rng.randint(2)])
    g("make_dot", utils.make_dot, N, labels=labels, lower_limit=0.2, path=[0, d - 1] if A[d - 1].any() and False else None)
    g("make_dot", utils.make_dot, A.copy(), labels=labels, prediction_feature_indices=[0, 1], prediction_target_label="Y", prediction_coefs=[0.1, 0.2], prediction_line_color="red")
    ps = utils.find_all_paths(A, 0, d - 1)[0]
    g("make_dot", utils.make_dot, A, labels=labels, path=(0, d - 1), path_color="blue")
    g("make_dot_highlight", utils.make_dot_highlight, A, 1, labels=labels, lower_limit=0.1, path=None, max_dsc=2)
    if c["box"] != "list" and A.any():
        g("evaluate_model_fit", utils.evaluate_model_fit, A, X)


def case_effect(m, rng, c):
    g = Guard(m)
    d = 4
    X0, B, _ = gen.linear_data(rng, 60, d, 0.7)
    X = box(rng, X0, c["box"])
    t = int(rng.randint(d))
    rest = [i for i in range(d) if i != t]
    Xa = np.asarray(X, float)
    cm = B if rng.rand() < 0.5 else B.tolist() if rng.rand() < 0.5 else lingam.DirectLiNGAM().fit(Xa)
    ce = g("CausalEffect", lingam.CausalEffect, cm)
    h = digest(cm)
    if rng.rand() < 0.5:
        pm = LinearRegression().fit(Xa[:, rest], Xa[:, t])
        g("estimate_effects_on_prediction", ce.estimate_effects_on_prediction, X, t, pm)
        try:
            g("estimate_optimal_intervention", ce.estimate_optimal_intervention, X, t, pm, rest[0], 1.0)
        except (ValueError, ZeroDivisionError):
            pass
    else:
        pm = LogisticRegression().fit(Xa[:, rest], Xa[:, t] > np.median(Xa[:, t]))
        g("estimate_effects_on_prediction", ce.estimate_effects_on_prediction, X, t, pm)
    m.check("arguments-unchanged", digest(cm) == h, tag="CausalEffect.causal_model")


def case_simulator(m, rng, c):
    g = Guard(m)
    d = 3
    X0, B, o = gen.linear_data(rng, 40, d, 0.9, order=[0, 1, 2])
    X = box(rng, X0, c["box"])
    names = [f"c{i}" for i in range(d)] if isinstance(X, pd.DataFrame) else [str(i) for i in range(d)]
    sim = lingam.CausalBasedSimulator()
    kind = rng.randint(3)
    n = 40
    if kind == 2:
        G = np.array([B, np.full((d, d), 0.2)])
        X = box(rng, gen.var_data(rng, 40, d, 1)[0], c["box"] if c["box"] != "df" else "array")
        algo = "VARLiNGAM"
    elif kind == 1:
        G = B.copy()
        G[0, 1] = G[1, 0] = np.nan
        algo = "BottomUpParceLiNGAM"
    else:
        G, algo = B.copy(), None
    models = None
    if kind == 0 and isinstance(X, (pd.DataFrame, np.ndarray)):
        sim0 = lingam.CausalBasedSimulator().train(X, G)
        nm = [k for k, v in sim0.train_result_.items() if v["model"] is not None]
        models = {nm[0]: LinearRegression()} if nm else None
    g("train", sim.train, X, G, cd_algo_name=algo, models=models, is_discrete=[False] * d)
    tr = sim.train_result_
    data = {k: {a: b for a, b in v.items() if a != "model"} for k, v in tr.items()}
    h = digest(data)
    nm = list(tr)
    L = len(tr[nm[0]]["residual"])
    ce = {nm[0]: rng.normal(size=L), nm[1]: rng.normal(size=L).tolist()}
    r1 = g("run", sim.run)
    hr = digest(r1)
    g("run", sim.run, changing_exog=ce, shuffle_residual=True, random_state=0)
    cm = {nm[2]: {"parent_names": [nm[0]], "coef": [0.3]}, nm[1]: {"parent_names": []}}
    if kind == 0:
        g("run", sim.run, changing_exog=ce, changing_models=cm)
    m.check("results-unchanged-by-query", digest({k: {a: b for a, b in v.items() if a != "model"} for k, v in sim.train_result_.items()}) == h, tag="simulator.train_result_")
    m.check("results-unchanged-by-query", digest(r1) == hr, tag="simulator.simulated")


def case_imputation(m, rng, c):
    g = Guard(m)
    X = gen.linear_data(rng, 60, 3, 0.6)[0]
    X[rng.rand(*X.shape) < 0.1] = np.nan
    X[:3] = rng.rand(3, 3)
    kind = c["box"] if c["box"] not in ("int", "list") else "array"
    pk = make_pk(rng, 3, "random").astype([int, float][rng.randint(2)])
    g("bootstrap_with_imputation", bootstrap_with_imputation, box(rng, X, kind), 2, n_repeats=2, prior_knowledge=pk, random_state=0)


def case_cdg(m, rng, c):
    g = Guard(m)
    n = 50
    z = gen.noise(rng, "uniform", n)
    x = 0.7 * z + gen.noise(rng, "uniform", n)
    y = x + z + gen.noise(rng, "uniform", n)
    df = pd.DataFrame({"z": z, "x": x, "y": y}, index=np.arange(n)[::-1])
    cdg = CausalDataGenerator(random_state=0)
    g("cdg.fit", cdg.fit, df, "x", "y", adjustments=["z"] if rng.rand() < 0.7 else None)
    g("cdg.generate", cdg.generate)
    if rng.rand() < 0.7:
        k = rng.randint(2)
        g("cdg.generate", cdg.generate, **({"interv_endog": {"x": np.full(n, 1.0)}} if k else {"interv_exog": {"x": rng.normal(size=n)}}))


def case_oct(m, rng, c):
    g = Guard(m)
    X = gen.linear_data(rng, 60, 3, 0.7)[0]
    X = box(rng, X, c["box"] if c["box"] != "list" else "array")
    cfg = [{"model": lingam.DirectLiNGAM}, {"model": lingam.ICALiNGAM, "init_kwargs": {"random_state": 1}}]
    o = OutOfSampleCausalTuning(cv=3, random_state=0)
    g("oct.fit", o.fit, X, cfg)


def case_visual(m, rng, c):
    import matplotlib.pyplot as plt

    g = Guard(m)
    X = pd.DataFrame(gen.linear_data(rng, 50, 3, 0.8, order=[0, 1, 2])[0], columns=list("abc"))
    model = lingam.RESIT(regressor=LinearRegression(), alpha=0.9)
    r = model.bootstrap(X, 2)
    fig = plt.figure()
    g("visualize_nonlinear_causal_effect", lambda *a, **k: utils.visualize_nonlinear_causal_effect(*a, estimator=LinearRegression(), cause_name="a", effect_name="c", cause_positions=[0.0, 0.5], fig=fig, **k), X, r, watch=r)
    plt.close("all")


def case_results(m, rng, c):
    """queries on hand-made result objects"""
    from lingam.bootstrap import BootstrapResult

    g = Guard(m)
    d = int(rng.choice([2, 3, 4, 5]))
    R = int(rng.choice([1, 3, 8]))
    Bs = np.array([gen.dag(rng, d, 0.5)[0] for _ in range(R)])
    if rng.rand() < 0.4:
        Bs[0][0, 1] = np.nan
        Bs[0][1, 0] = np.nan
    Es = np.array([np.nan_to_num(b) for b in Bs])
    r = BootstrapResult(Bs, Es)
    h = digest((Bs, Es))
    query_boot(g, r, d, rng)
    m.check("arguments-unchanged", digest((Bs, Es)) == h, tag="BootstrapResult")
