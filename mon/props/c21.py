"""C21: longitudinal effects are attached to the right time point and lag."""
import numpy as np
import lingam

from mon import gen, oracle
from mon.props.c02 import make_pk
from mon.props.c19 import warned

RULE = (
    "panel data of 2-9 time points whose effects differ at every time point and lag, 1-4 lags, with and without prior knowledge, lists and arrays; "
    "matrices, residuals, p-value positions, total effects and bootstrap effects are recomputed independently per time point and lag; "
    "non-trivial: at least two modelled time points or lags; distinct by (data, options)"
)
REQUIRED = {"early-undefined": 150, "reduced-form-at-lag": 250, "instantaneous-at-time": 200, "stacked-blocks": 60, "residuals-at-time": 300, "known-model-recovered": 8,
            "effect-regression": 400, "effect-paths": 400, "warns-iff-against-order": 800, "bootstrap-effects": 40}
SLOW_FIRST = ["known", "bootstrap"]


def cases(seed, tier):
    def f(i, r):
        L = int(r.choice([1, 1, 2, 3]))
        return {"n": int(r.choice([40, 80, 200, 1200])) if i % 11 != 5 else 40, "d": int(r.choice([2, 3, 4])) if i % 11 != 5 else 2, "L": L if i % 11 != 5 else 1, "T": L + int(r.choice([1, 2, 3])) if i % 11 != 5 else [2, 3, 5][i // 3 % 3] if i % 3 < 2 else 3, "pk": i % 3 == 2, "arr": i % 4 == 1, "kernel": i % 11 == 5}

    def w(i, r):
        L = int(r.choice([1, 2, 3, 4]))
        T = L + int(r.choice([2, 4, 5]))
        return dict(f(i, r), n=int(r.choice([60, 120])), d=int(r.choice([2, 3, 5, 6])) if T < 6 else int(r.choice([2, 3])), L=L, T=T, kernel=False)

    return gen.spread(seed, tier, [
        ("wide", 40, 300, w), ("kernel_pk", 10, 60, lambda i, r: dict(f(i, r), n=int(r.choice([40, 60])), d=3, L=1, T=2, pk=True, kernel=True)),
        ("panel", 170, 1500, f), ("known", 12, 60, lambda i, r: dict(f(i, r), n=4000, d=int(r.choice([2, 3])), pk=i % 4 == 3, kernel=False)),
        ("bootstrap", 30, 200, lambda i, r: dict(dict(f(i, r), n=50, d=int(r.choice([2, 3])), kernel=False), **({"T": int(r.choice([7, 8])), "d": 2, "L": int(r.choice([1, 2]))} if i % 5 == 4 else {}))),
    ])


def panel(rng, c, density=0.7):
    """x_t = B[t,0] x_t + sum_k B[t,k] x_{t-k} + e, all B[t,k] different"""
    n, d, L, T = c["n"], c["d"], c["L"], c["T"]
    B = np.zeros((T, L + 1, d, d))
    X = []
    for t in range(T):
        B[t, 0], order = gen.dag(rng, d, 0.7, 0.5, 1.2)
        v = np.column_stack([gen.noise(rng, ["uniform", "exp", "bimodal", "laplace"][rng.randint(4)], n) for _ in range(d)])
        for k in range(1, L + 1):
            B[t, k] = rng.uniform(0.2, 0.7, (d, d)) * rng.choice([-1, 1], (d, d)) * (rng.rand(d, d) < density)
            if t - k >= 0:
                v = v + X[t - k] @ B[t, k].T
        X.append(v @ np.linalg.inv(np.eye(d) - B[t, 0]).T)
    return X, B


def make(rng, c):
    L, T, d = c["L"], c["T"], c["d"]
    pk = None
    if c["pk"]:
        pk = np.full((T, L + 1, d, d), -1)
        for t in range(T):
            if rng.rand() < 0.6:
                pk[t, 0] = make_pk(rng, d, "mixed")
            for k in range(1, L + 1):
                if rng.rand() < 0.5:
                    pk[t, k] = rng.choice([0, -1, 1], (d, d), p=[0.3, 0.6, 0.1])
    kw = {"measure": "kernel"} if c["kernel"] else {}
    return lingam.LongitudinalLiNGAM(n_lags=L, prior_knowledge=None if pk is None else pk.copy(), **kw), pk


def stacked(X, pk, L, measure="pwling"):
    """the joint model over all time points: one variable per (time, feature)"""
    T, d = len(X), X[0].shape[1]
    P = np.zeros((T * d, T * d))
    for t in range(T):
        for k in range(L + 1):
            if t - k >= 0:
                P[t * d : (t + 1) * d, (t - k) * d : (t - k + 1) * d] = pk[t, k]
    return lingam.DirectLiNGAM(prior_knowledge=P, measure=measure).fit(np.column_stack(X))


def path_sum(A, L, T):
    """total effects between all (time, feature) pairs from the first modelled time on"""
    d = A.shape[-1]
    big = np.zeros((T * d, T * d))
    for t in range(L, T):
        for k in range(L + 1):
            if t - k >= L:
                big[t * d : (t + 1) * d, (t - k) * d : (t - k + 1) * d] = A[t, k]
    return oracle.total_effects(big)


def run(m, rng, c):
    X, B = panel(rng, c)
    if rng.rand() < 0.3:
        X = [x + rng.uniform(-3, 3, c["d"]) for x in X]
    n, d, L, T = c["n"], c["d"], c["L"], c["T"]
    model, pk = make(rng, c)
    model.fit(np.array(X) if c["arr"] else [x.copy() for x in X])
    A = np.asarray(model.adjacency_matrices_, float)
    if not m.check("shape", A.shape == (T, L + 1, d, d) and len(model.causal_orders_) == T and len(model.residuals_) == T, got=A.shape):
        return
    if pk is not None:
        ref = stacked(X, pk, L, "kernel" if c["kernel"] else "pwling")
        S = np.asarray(ref.adjacency_matrix_, float)
        so = [int(v) for v in ref.causal_order_]
    for t in range(T):
        R = np.asarray(model.residuals_[t], float)
        if t < L:
            m.check("early-undefined", np.isnan(A[t]).all() and all(np.isnan(float(v)) for v in model.causal_orders_[t]) and np.isnan(R).all(), t=t, got=A[t])
            continue
        order = [int(v) for v in model.causal_orders_[t]]
        I0 = np.eye(d) - A[t, 0]
        # residuals belong to this time point and this model
        want = X[t] - sum(X[t - k] @ np.linalg.solve(I0, A[t, k]).T for k in range(1, L + 1))
        m.check("residuals-at-time", R.shape == (n, d) and np.allclose(R - R.mean(0), want - want.mean(0), rtol=1e-6, atol=1e-7), t=t, got=R[:3], want=want[:3])
        if pk is None:
            past = np.concatenate([X[t - k] for k in range(1, L + 1)], axis=1)
            M = np.array([oracle.ols(past, X[t][:, j]) for j in range(d)])
            for k in range(1, L + 1):
                m.close("reduced-form-at-lag", np.linalg.solve(I0, A[t, k]), M[:, (k - 1) * d : k * d], rtol=1e-5, atol=1e-7, t=t, lag=k)
            inst = lingam.DirectLiNGAM(measure="kernel" if c["kernel"] else "pwling").fit(R)
            m.check("instantaneous-at-time", order == [int(v) for v in inst.causal_order_] and np.allclose(A[t, 0], inst.adjacency_matrix_, rtol=1e-6, atol=1e-9), t=t, got=A[t, 0], want=inst.adjacency_matrix_)
        else:
            for k in range(L + 1):
                m.close("stacked-blocks", A[t, k], S[t * d : (t + 1) * d, (t - k) * d : (t - k + 1) * d], rtol=1e-6, atol=1e-9, t=t, lag=k)
            m.check("stacked-order", order == [v - t * d for v in so if t * d <= v < (t + 1) * d], t=t, got=order, want=so)
    m.state(A)
    # total effects
    TE = path_sum(A, L, T)
    for _ in range(8):
        ft = int(rng.randint(L, T))
        tt = int(rng.randint(ft, T))
        a, b = [int(v) for v in rng.choice(d, 2, replace=False)]
        if tt > ft and rng.rand() < 0.3:
            b = a
        o = [int(v) for v in model.causal_orders_[ft]]
        against = tt == ft and o.index(a) > o.index(b)
        v, w = warned(lambda: model.estimate_total_effect(np.array(X) if c["arr"] else X, ft, a, tt, b))
        m.check("warns-iff-against-order", w == against, a=a, b=b, ft=ft, tt=tt)
        Z = np.column_stack([X[ft][:, a]] + [X[ft - k][:, j] for k in range(L + 1) for j in range(d) if A[ft, k, a, j] != 0])
        if np.linalg.cond((Z - Z.mean(0)) / Z.std(0)) < 1e6:
            m.close("effect-regression", v, oracle.ols(Z, X[tt][:, b])[0], rtol=1e-5, atol=1e-8, a=a, b=b, ft=ft, tt=tt)
        v, w = warned(lambda: model.estimate_total_effect2(ft, a, tt, b))
        m.check("warns-iff-against-order", w == against, a=a, b=b, ft=ft, tt=tt)
        m.close("effect-paths", v, TE[tt * d + b, ft * d + a], rtol=1e-6, atol=1e-9, a=a, b=b, ft=ft, tt=tt)
    return model, X, A, B, pk


def case_panel(m, rng, c):
    run(m, rng, c)


case_wide = case_kernel_pk = case_panel


def case_known(m, rng, c):
    """many samples of a known model: what is reported for (t, lag) is the effect that acted there"""
    c = dict(c, pk=False) if not c["pk"] else c
    out = run(m, rng, dict(c, pk=False))
    if out is None:
        return
    model, X, A, B, _ = out
    for t in range(c["L"], c["T"]):
        W = np.linalg.inv(np.eye(c["d"]) - B[t, 0])
        V = np.linalg.inv(np.eye(c["d"]) - A[t, 0])
        past = np.concatenate([X[t - k] for k in range(1, c["L"] + 1)], axis=1)
        P = np.linalg.inv(np.cov(past.T))
        se = np.sqrt(np.diag(P) / c["n"])
        scale = np.sqrt(np.diag(W @ W.T))
        for k in range(1, c["L"] + 1):
            s = se[(k - 1) * c["d"] : k * c["d"]]
            tol = 6 * np.outer(scale, s) + 1e-3
            m.check("known-model-recovered", (np.abs(V @ A[t, k] - W @ B[t, k]) < tol).all(), t=t, lag=k, got=V @ A[t, k], want=W @ B[t, k], tol=tol)


def case_bootstrap(m, rng, c):
    X, _ = panel(rng, c)
    model, pk = make(rng, dict(c, kernel=False))
    L, T, d = c["L"], c["T"], c["d"]
    start = int(rng.choice([1, 1, 0, L, T - 1]))
    kw = {} if start == 1 else {"start_from_t": start}
    res = model.bootstrap(np.array(X) if c["arr"] else X, 2, **kw)
    AM, TEs = np.asarray(res.adjacency_matrices_, float), np.asarray(res.total_effects_, float)
    m.check("bootstrap-shape", AM.shape == (2, T, L + 1, d, d) and TEs.shape == (2, T * d, T * d), got=[AM.shape, TEs.shape])
    for A, TE in zip(AM, TEs):
        m.check("early-undefined", np.isnan(A[:L]).all() and not np.isnan(A[L:]).any(), got=A)
        want = path_sum(A, L, T)
        want[:, : max(start, L) * d] = 0
        m.close("bootstrap-effects", TE, want, rtol=1e-6, atol=1e-9, start=start, lags=L)
        m.state(A)
