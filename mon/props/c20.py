"""C20: vector-ARMA models satisfy their structural equations."""
import numpy as np
import lingam
from statsmodels.tsa.statespace.varmax import VARMAX

from mon import gen, oracle
from mon.props.c19 import check_rows, fresh, lin_model, warned

RULE = (
    "time series of 2-8 variables, AR/MA orders 0-5, estimated (by statsmodels) and supplied reduced-form coefficients, all criteria, pruned and not; "
    "order choice, residual recursion, structural matrices and total effects are recomputed independently; non-trivial: at least one lagged effect; "
    "distinct by (data, options)"
)
REQUIRED = {"order-choice": 25, "residuals": 120, "instantaneous": 60, "ar-identity": 40, "ma-identity": 40, "pruned-row-least-squares": 60, "pruned-row-selection": 40,
            "effect-regression": 250, "effect-paths": 250, "warns-iff-against-order": 300}
SLOW_FIRST = ["search", "estimated"]
ASSUMPTIONS = ["statsmodels' VARMAX is the trusted base for the reduced form estimated from data"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([40, 60, 90])), "d": 2, "order": [(1, 1), (1, 0), (0, 1), (2, 1), (1, 2)][i % 5], "prune": bool(i // 5 % 2), "model": i // 10 % 4, "crit": None}

    def g(i, r):
        return {"n": int(r.choice([40, 80, 200])), "d": int(r.choice([2, 3, 4])), "order": [(1, 1), (2, 1), (1, 3), (2, 2), (3, 1), (1, 2)][i % 6], "prune": bool(i // 6 % 2), "model": i // 12 % 4,
                "say": i % 3, "crit": None}

    def h(i, r):
        return {"n": int(r.choice([40, 60])), "d": 2, "order": [(1, 1), (2, 1), (1, 0), (0, 2)][i % 4], "prune": bool(i // 2 % 2), "model": 0, "crit": ["bic", "aic", "hqic"][i % 3]}

    return gen.spread(seed, tier, [("search", 12, 100, h), ("estimated", 30, 200, f), ("supplied", 100, 1000, g), ("supplied_long", 4, 40, lambda i, r: dict(g(i, r), n=1600, d=3)),
        ("supplied_wide", 24, 150, lambda i, r: dict(g(i, r), n=int(r.choice([150, 300])), d=int(r.choice([4, 5, 6, 8])), order=[(4, 1), (1, 4), (3, 3), (5, 2), (2, 5), (1, 1)][int(r.randint(6))]))])


def arma_data(rng, n, d):
    X = gen.var_data(rng, n + 1, d, int(rng.choice([1, 2])))[0]
    E = np.column_stack([gen.noise(rng, gen.NOISES[rng.randint(6)], n + 1) for _ in range(d)])
    return (X + E)[1:] + 0.4 * E[:-1] @ rng.uniform(-1, 1, (d, d))


def common(m, rng, c, X, model, order, phis, thetas, E_all):
    """E_all: reduced-form residuals of the rows model.residuals_ covers"""
    d, n = X.shape[1], len(X)
    p, q = order
    psi, omega = (np.asarray(a, float) for a in model.adjacency_matrices_)
    R = np.asarray(model.residuals_, float)
    if not m.check("shapes", psi.shape == (1 + p, d, d) and (omega.shape == (q, d, d) or (q == 0 and omega.size == 0)), got=[psi.shape, omega.shape], want=order):
        return
    omega = omega.reshape(q, d, d)
    inst = fresh(c["model"], c["mseed"]).fit(R)
    B0 = np.asarray(inst.adjacency_matrix_, float)
    corder = [int(v) for v in model.causal_order_]
    m.check("instantaneous-order", corder == [int(v) for v in inst.causal_order_], got=corder, want=inst.causal_order_)
    if not c["prune"]:
        m.close("instantaneous", psi[0], B0, rtol=1e-6, atol=1e-9)
        I0 = np.eye(d) - B0
        for k in range(p):
            m.close("ar-identity", psi[k + 1], I0 @ phis[k], rtol=1e-6, atol=1e-8, lag=k + 1)
        for k in range(q):
            m.close("ma-identity", omega[k], I0 @ thetas[k] @ np.linalg.inv(I0), rtol=1e-6, atol=1e-8, lag=k + 1)
    else:
        m.check("instantaneous", not np.triu(psi[0][np.ix_(corder, corder)]).any(), got=psi[0], order=corder)
        S = R @ (np.eye(d) - B0).T
        Y = X[n - len(S) :]
        N, K = len(S), max(p, q)
        blocks = [Y[K - k : N - k] for k in range(p + 1)] + [S[K - k : N - k] for k in range(1, q + 1)]
        check_rows(m, "varma", Y, blocks, corder, np.concatenate([*psi, *omega], axis=1))
    m.state(X, psi, omega)
    # total effects
    big = np.zeros((d * (p + 1),) * 2)
    for r in range(p + 1):
        for k in range(p + 1 - r):
            big[r * d : (r + 1) * d, (r + k) * d : (r + k + 1) * d] = psi[k]
    TE, n_paths = oracle.total_effects(big), oracle.total_effects((big != 0).astype(float))
    E = rng.normal(size=X.shape) if rng.rand() < 0.5 or len(R) < n else R
    for _ in range(6):
        fl = int(rng.randint(p + 3))
        a, b = [int(v) for v in rng.choice(d, 2, replace=False)]
        if fl and rng.rand() < 0.3:
            b = a
        against = fl == 0 and corder.index(a) > corder.index(b)
        v, w = warned(lambda: model.estimate_total_effect(X.copy(), E.copy(), a, b, from_lag=fl))
        m.check("warns-iff-against-order", w == against, got=w, a=a, b=b, lag=fl)
        K = max(p, q) + fl
        x = lambda lag, j: X[K - lag : n - lag, j]
        e = lambda lag, j: E[K - lag : n - lag, j]
        Z = [x(fl, a)] + [x(fl + k, j) for k in range(p + 1) for j in range(d) if psi[k][a, j] != 0] + [e(fl + k, j) for k in range(1, q + 1) for j in range(d) if omega[k - 1][a, j] != 0]
        Z = np.column_stack(Z)
        if len(Z) > Z.shape[1] + 1 and np.linalg.cond((Z - Z.mean(0)) / Z.std(0)) < 1e6:
            m.close("effect-regression", v, oracle.ols(Z, x(0, b))[0], rtol=1e-5, atol=1e-8, a=a, b=b, lag=fl)
        if fl <= p and n_paths[b, a + d * fl] < 2000:
            v, w = warned(lambda: model.estimate_total_effect2(d, a, b, from_lag=fl))
            m.check("warns-iff-against-order", w == against, got=w, a=a, b=b, lag=fl)
            m.close("effect-paths", v, TE[b, a + d * fl], rtol=1e-6, atol=1e-9, a=a, b=b, lag=fl)


def case_supplied(m, rng, c):
    c = dict(c, mseed=int(rng.randint(100)))
    d, (p, q) = c["d"], c["order"]
    X = arma_data(rng, c["n"], d)
    phis, thetas = rng.uniform(-0.4, 0.4, (p, d, d)), rng.uniform(-0.3, 0.3, (q, d, d)) / q
    kw = {"order": (p, q)} if c["say"] else {}  # the default order may differ from what is supplied
    model = lingam.VARMALiNGAM(ar_coefs=phis.copy(), ma_coefs=thetas.copy(), prune=c["prune"], lingam_model=lin_model(c["model"], c["mseed"]), random_state=int(rng.randint(100)), **kw)
    model.fit(X.copy())
    R = np.asarray(model.residuals_, float)
    s = max(p, q)
    if not m.check("residuals", R.shape == (c["n"] - s, d), got=R.shape):
        return
    for t in range(q, len(R)):
        T = t + s
        want = X[T] - sum(phis[k] @ X[T - 1 - k] for k in range(p)) - sum(thetas[k] @ R[t - 1 - k] for k in range(q))
        if not np.allclose(R[t], want, rtol=1e-6, atol=1e-8):
            m.check("residuals", False, t=t, got=R[t], want=want)
            return
    m.check("residuals", True)
    common(m, rng, c, X, model, (p, q), phis, thetas, R)


case_supplied_long = case_supplied_wide = case_supplied


def fit_ref(X, order, it):
    return VARMAX(X, order=order, trend="c").fit(maxiter=it, disp=False)


def case_estimated(m, rng, c):
    c = dict(c, mseed=int(rng.randint(100)))
    d = c["d"]
    X = arma_data(rng, c["n"], d)
    if c["prune"]:
        X = X + rng.uniform(-2, 2, d)
    it = int(rng.choice([10, 30, 100])) if c["crit"] is None else 10
    orders = [tuple(c["order"])]
    if c["crit"]:
        P, Q = c["order"]
        orders = [(a, b) for a in range(P + 1) for b in range(Q + 1) if a + b]
    try:
        refs = {o: fit_ref(X, o, it) for o in orders}
    except (np.linalg.LinAlgError, ValueError):
        m.skip("reduced-form-failed")
        return
    model = lingam.VARMALiNGAM(order=tuple(c["order"]), criterion=c["crit"], prune=c["prune"], max_iter=it, lingam_model=lin_model(c["model"], c["mseed"]), random_state=0)
    import contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        model.fit(X.copy())
    best = orders[0]
    if c["crit"]:
        vals = sorted((getattr(r, c["crit"]), o) for o, r in refs.items())
        if len(vals) > 1 and vals[1][0] - vals[0][0] < 1e-6:
            m.skip("criterion-tie")
            return
        best = vals[0][1]
    psi, omega = model.adjacency_matrices_
    if not m.check("order-choice", (len(psi) - 1, len(omega)) == best, got=[len(psi) - 1, len(omega)], want=best, crit=c["crit"]):
        return
    ref = refs[best]
    R = np.asarray(model.residuals_, float)
    if not m.check("residuals", R.shape == X.shape and np.allclose(R, ref.resid, rtol=1e-5, atol=1e-7), got=R[:3], want=np.asarray(ref.resid)[:3]):
        return
    common(m, rng, c, X, model, best, ref.coefficient_matrices_var, ref.coefficient_matrices_vma, R)


case_search = case_estimated
