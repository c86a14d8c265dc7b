"""C01: causal orders are permutations; edges never contradict them."""
import numpy as np
import lingam
from sklearn.linear_model import LinearRegression
from sklearn.ensemble import RandomForestRegressor

from mon import gen, oracle

RULE = (
    "random data of 9 flavours (LiNGAM, Gaussian, independent, cyclic, confounded, badly scaled, "
    "nonlinear, heavy-tailed, discrete) x estimator x options; non-trivial: a fitted model with "
    "at least two variables whose order and matrix were checked; distinct by (estimator, matrix)"
)
REQUIRED = {"order-is-permutation": 100, "edges-follow-order": 100, "acyclic": 100}
SLOW_FIRST = ["varma", "resit", "kernel", "longitudinal"]


def cases(seed, tier):
    F = gen.FLAVOURS

    def cross(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4, 5, 6, 8, 11])), "n": int(r.choice([30, 80, 200, 500, 1500]))}

    def small(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4])), "n": int(r.choice([40, 90]))}

    def ts(i, r):
        return {"d": int(r.choice([2, 3, 4])), "lags": int(r.choice([1, 2, 3])), "n": int(r.choice([80, 200])),
                "prune": bool(i % 2), "inner": ["direct", "ica", "kernel"][i % 3], "crit": [None, "bic", "aic", "hqic", "fpe"][i % 5],
                "coefs": i % 4 == 3}

    def vm(i, r):
        return {"d": 2, "n": 90, "order": [[1, 1], [1, 0], [0, 1], [2, 1], [1, 2]][i % 5], "prune": bool(i % 2), "crit": [None, "bic"][(i // 2) % 2],
                "coefs": i % 3 == 2}

    def lo(i, r):
        return {"d": int(r.choice([2, 3])), "T": int(r.choice([2, 3, 4, 5])), "lags": int(r.choice([1, 1, 2, 3])), "n": int(r.choice([60, 150])), "pk": bool(i % 3 == 2), "measure": ["pwling", "kernel"][i % 5 == 4]}

    def boot(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 5])), "n": int(r.choice([40, 120])), "model": ["direct", "ica", "highdim", "multi", "resit"][i % 5]}

    return gen.spread(seed, tier, [
        ("direct", 360, 3000, cross), ("ica", 360, 3000, cross), ("highdim", 240, 2000, cross), ("highdim_wide", 36, 240, None),
        ("kernel", 72, 400, small), ("resit", 108, 600, small), ("multi", 180, 1200, cross),
        ("var", 180, 1000, ts), ("varma", 40, 200, vm), ("longitudinal", 144, 800, lo), ("bootstrap", 120, 800, boot),
        ("degenerate", 180, 1200, lambda i, r: dict(small(i // 9, r), d=int(r.choice([2, 3, 5, 9])), est=["direct", "ica", "highdim", "multi", "resit", "kernel", "direct", "ica", "var"][i % 9])),
    ])


def observe(m, name, order, B, d, tag=""):
    """the invariant monitor, evaluated on one fitted order/matrix pair"""
    B = np.asarray(B, dtype=float)
    try:
        o = [int(v) for v in order]
        ok = len(o) == d and sorted(o) == list(range(d))
    except Exception:
        o, ok = None, False
    m.check("order-is-permutation", ok, tag=tag, model=name, order=order, d=d)
    m.check("matrix-shape", B.shape == (d, d), tag=tag, model=name, shape=B.shape)
    m.check("weights-finite", np.isfinite(B).all(), tag=tag, model=name, B=B)
    m.check("zero-diagonal", not np.any(np.diag(B)), tag=tag, model=name, B=B)
    if ok:
        perm = B[np.ix_(o, o)]
        m.check("edges-follow-order", not np.any(np.triu(perm)), tag=tag, model=name, order=o, B=B)
    m.check("acyclic", oracle.is_acyclic(np.nan_to_num(B, nan=1.0)), tag=tag, model=name, B=B)
    m.state(name, B)


def case_degenerate(m, rng, c):
    """columns without variation or exactly dependent ones: an answer, if given, is still an acyclic graph with its order"""
    d, est = c["d"], c["est"]
    if est in ("resit", "kernel", "var"):
        d = min(d, 3)
    X = gen.degenerate(rng, gen.messy_data(rng, c["n"], d, c["flavour"]))
    model = {
        "direct": lambda: lingam.DirectLiNGAM(), "ica": lambda: lingam.ICALiNGAM(random_state=0), "highdim": lambda: lingam.HighDimDirectLiNGAM(),
        "multi": lambda: lingam.MultiGroupDirectLiNGAM(), "resit": lambda: lingam.RESIT(regressor=LinearRegression()), "kernel": lambda: lingam.DirectLiNGAM(measure="kernel"),
        "var": lambda: lingam.VARLiNGAM(),
    }[est]()
    try:
        model.fit([X, gen.messy_data(rng, c["n"], d, c["flavour"])] if est == "multi" else X)
    except Exception as e:  # an error is an acceptable answer to such data
        m.skip("degenerate-refused-" + type(e).__name__)
        return
    Bs = model.adjacency_matrices_ if est == "multi" else model.adjacency_matrices_[:1] if est == "var" else [model.adjacency_matrix_]
    for B in Bs:
        B = np.asarray(B, dtype=float)
        o = [int(v) for v in model.causal_order_]
        ok = sorted(o) == list(range(d))
        m.check("order-is-permutation", ok, tag="degenerate-" + est, order=o, d=d)
        if not np.isfinite(B).all():
            m.skip("degenerate-not-finite")
        elif ok:
            m.check("edges-follow-order", not np.any(np.triu(B[np.ix_(o, o)])), tag="degenerate-" + est, order=o, B=B)
            m.check("acyclic", oracle.is_acyclic(B), tag="degenerate-" + est, B=B)
    m.state("degenerate-" + est, np.asarray(Bs, dtype=float))


def case_direct(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    model = lingam.DirectLiNGAM(random_state=3)
    r = model.fit(X)
    m.check("fit-returns-self", r is model)
    observe(m, "direct", model.causal_order_, model.adjacency_matrix_, c["d"])


def case_kernel(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    model = lingam.DirectLiNGAM(measure="kernel").fit(X)
    observe(m, "kernel", model.causal_order_, model.adjacency_matrix_, c["d"])


def case_ica(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    model = lingam.ICALiNGAM(random_state=int(rng.randint(1000)), max_iter=int(rng.choice([1, 5, 100, 1000])))
    model.fit(X)
    observe(m, "ica", model.causal_order_, model.adjacency_matrix_, c["d"])


def case_highdim(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    model = lingam.HighDimDirectLiNGAM(J=int(rng.choice([3, 4, 5])), K=int(rng.choice([2, 3, 4])), alpha=float(rng.choice([0.0, 0.3, 0.5, 1.0])))
    model.fit(X)
    observe(m, "highdim", model.causal_order_, model.adjacency_matrix_, c["d"])


def case_highdim_wide(m, rng, c):
    d = int(rng.choice([8, 10, 12, 18, 26]))
    X = gen.linear_data(rng, int(rng.choice([d - 1, d, d + 1])), d, 0.3 if d < 15 else 0.1)[0]
    model = lingam.HighDimDirectLiNGAM().fit(X)
    observe(m, "highdim-wide", model.causal_order_, model.adjacency_matrix_, d)
    model = lingam.HighDimDirectLiNGAM(estimate_adj_mat=False).fit(X)
    o = [int(v) for v in model.causal_order_]
    m.check("order-is-permutation", sorted(o) == list(range(d)), model="highdim-order-only", order=o)


def case_resit(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    reg = LinearRegression() if rng.rand() < 0.6 else RandomForestRegressor(n_estimators=3, max_depth=3, random_state=0)
    model = lingam.RESIT(regressor=reg, alpha=float(rng.choice([0.0, 0.01, 0.5, 1.0])), random_state=1).fit(X)
    observe(m, "resit", model.causal_order_, model.adjacency_matrix_, c["d"])
    m.check("resit-binary", np.isin(model.adjacency_matrix_, [0, 1]).all(), B=model.adjacency_matrix_)


def case_multi(m, rng, c):
    k = gen.ngroups(rng)
    Xs = [gen.messy_data(rng, n, c["d"], gen.FLAVOURS[rng.randint(len(gen.FLAVOURS))]) for n in gen.nrows(rng, c["n"], k)]
    model = lingam.MultiGroupDirectLiNGAM().fit(Xs)
    m.check("one-matrix-per-group", len(model.adjacency_matrices_) == k)
    for B in model.adjacency_matrices_:
        observe(m, "multi", model.causal_order_, B, c["d"])


def _inner(name):
    return {"direct": None, "ica": lingam.ICALiNGAM(random_state=0), "kernel": lingam.DirectLiNGAM(measure="pwling")}[name]


def case_var(m, rng, c):
    X, _, _, _ = gen.var_data(rng, c["n"], c["d"], c["lags"])
    coefs = rng.uniform(-0.3, 0.3, (c["lags"], c["d"], c["d"])) if c["coefs"] else None
    model = lingam.VARLiNGAM(lags=c["lags"], criterion=c["crit"], prune=c["prune"], ar_coefs=coefs, lingam_model=_inner(c["inner"]), random_state=0).fit(X)
    Bs = np.asarray(model.adjacency_matrices_)
    observe(m, "var", model.causal_order_, Bs[0], c["d"])
    m.check("lag-count", 2 <= len(Bs) <= c["lags"] + 1 and (c["crit"] or c["coefs"] or True), n=len(Bs))
    if c["coefs"] or c["crit"] is None:
        m.check("all-lags-reported", len(Bs) == c["lags"] + 1, n=len(Bs), lags=c["lags"])
    m.check("weights-finite", np.isfinite(Bs).all(), model="var", B=Bs)


def case_varma(m, rng, c):
    p, q = c["order"]
    X, _, _, _ = gen.var_data(rng, c["n"], c["d"], max(p, 1))
    kw = {}
    if c["coefs"]:
        kw = dict(ar_coefs=rng.uniform(-0.3, 0.3, (max(p, 1), c["d"], c["d"])), ma_coefs=rng.uniform(-0.3, 0.3, (max(q, 1), c["d"], c["d"])))
        p, q = max(p, 1), max(q, 1)
    model = lingam.VARMALiNGAM(order=(p, q), criterion=c["crit"], prune=c["prune"], max_iter=15, **kw).fit(X)
    psi, omega = model.adjacency_matrices_
    observe(m, "varma", model.causal_order_, psi[0], c["d"])
    m.check("weights-finite", np.isfinite(psi).all() and np.isfinite(omega).all(), model="varma")
    if c["coefs"] or c["crit"] is None:
        m.check("all-lags-reported", len(psi) == p + 1 and len(omega) == q, p=len(psi), q=len(omega), order=[p, q])


def longitudinal_series(rng, n, d, T, lags):
    B0, order = gen.dag(rng, d, 0.6, 0.4, 1.0)
    Bs = [rng.uniform(-0.6, 0.6, (d, d)) for _ in range(lags)]
    A = np.linalg.inv(np.eye(d) - B0)
    X = []
    for t in range(T):
        v = np.column_stack([gen.noise(rng, gen.NOISES[rng.randint(5)], n) for _ in range(d)])
        for k in range(lags):
            if t - k - 1 >= 0:
                v = v + X[t - k - 1] @ Bs[k].T
        X.append(v @ A.T)
    return X, B0, Bs, order


def case_longitudinal(m, rng, c):
    T = max(c["T"], c["lags"] + 1)
    d = c["d"]
    X, _, _, _ = longitudinal_series(rng, c["n"], d, T, c["lags"])
    pk = None
    if c["pk"]:
        pk = np.full((T, c["lags"] + 1, d, d), -1)
        pk[rng.rand(*pk.shape) < 0.15] = 0
    model = lingam.LongitudinalLiNGAM(n_lags=c["lags"], prior_knowledge=pk, measure=c["measure"]).fit(X)
    A = np.asarray(model.adjacency_matrices_)
    m.check("matrix-shape", A.shape == (T, c["lags"] + 1, d, d), model="longitudinal", shape=A.shape)
    for t in range(T):
        if t < c["lags"]:
            m.check("unmodelled-times-undefined", np.isnan(A[t]).all(), t=t, A=A[t])
            m.check("unmodelled-order-undefined", np.isnan(np.asarray(model.causal_orders_[t], float)).all(), t=t)
        else:
            observe(m, "longitudinal", model.causal_orders_[t], A[t, 0], d)
            m.check("weights-finite", np.isfinite(A[t]).all(), model="longitudinal", B=A[t])


def case_bootstrap(m, rng, c):
    d = c["d"]
    X = gen.messy_data(rng, c["n"], d, c["flavour"])
    mk = {"direct": lambda: lingam.DirectLiNGAM(), "ica": lambda: lingam.ICALiNGAM(random_state=0), "highdim": lambda: lingam.HighDimDirectLiNGAM(),
          "resit": lambda: lingam.RESIT(regressor=LinearRegression()), "multi": lambda: lingam.MultiGroupDirectLiNGAM()}[c["model"]]
    k = 4
    if c["model"] == "multi":
        res = mk().bootstrap([X, X[::-1] * 1.5 + 1], k)
    else:
        res = [mk().bootstrap(X, k)]
    for r in res:
        m.check("replicate-count", len(r.adjacency_matrices_) == k)
        for B in r.adjacency_matrices_:
            m.check("zero-diagonal", not np.any(np.diag(B)), model=c["model"])
            m.check("weights-finite", np.isfinite(B).all(), model=c["model"])
            m.check("acyclic", oracle.is_acyclic(np.nan_to_num(B, nan=1.0)), model=c["model"], B=B)
            m.state(c["model"], B)
