"""C19: autoregressive models satisfy their structural equations."""
import warnings

import numpy as np
import lingam

from mon import gen, oracle

RULE = (
    "time series of 2-11 variables, 1-7 true lags, up to 11 allowed lags, n = 40..3000, all criteria, pruned and not, estimated and supplied reduced-form coefficients, several "
    "instantaneous estimators; reduced form, lag choice, residuals, structural matrices and total effects are recomputed independently; "
    "non-trivial: at least one lagged effect; distinct by (data, options)"
)
REQUIRED = {"lag-choice": 100, "residuals": 150, "instantaneous": 150, "lagged-identity": 80, "pruned-row-least-squares": 150, "pruned-row-selection": 120,
            "effect-regression": 500, "effect-paths": 500, "warns-iff-against-order": 200}
CRIT = ["bic", "aic", "hqic", "fpe", None]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([40, 80, 150, 400])), "d": int(r.choice([2, 3, 3, 4, 5])), "true": int(r.choice([1, 2, 3])), "lags": int(r.choice([1, 2, 3, 4])),
                "crit": i % 5, "prune": bool(i // 5 % 2), "model": i // 10 % 4, "shift": i % 7 == 3}

    return gen.spread(seed, tier, [("estimated", 180, 1500, f), ("supplied", 60, 500, f), ("long", 8, 60, lambda i, r: dict(f(i, r), n=int(r.choice([1500, 3000])), d=3)),
        ("wide", 24, 150, lambda i, r: dict(f(i, r), n=int(r.choice([260, 420])), d=int(r.choice([6, 7, 8, 10, 11])), lags=int(r.choice([1, 2, 3])))),
        ("deep", 24, 150, lambda i, r: dict(f(i, r), n=int(r.choice([200, 400])), d=int(r.choice([2, 3])), true=int(r.choice([3, 5, 7])), lags=int(r.choice([5, 6, 8, 9, 11])))),
        ("supplied_wide", 16, 100, lambda i, r: dict(f(i, r), n=int(r.choice([150, 300])), d=int(r.choice([6, 8, 11])), lags=int(r.choice([1, 2, 5]))))])


def reduced(X, lag):
    T, d = X.shape
    Z = np.column_stack([X[lag - k : T - k] for k in range(1, lag + 1)])
    Y = X[lag:]
    C, *_ = np.linalg.lstsq(Z, Y, rcond=None)
    R = Y - Z @ C
    M = np.array([C[k * d : (k + 1) * d].T for k in range(lag)])
    n = len(Y)
    ld = np.linalg.slogdet(R.T @ R / n)[1]
    k = lag * d * d
    crit = {
        "aic": ld + 2.0 / n * k,
        "bic": ld + np.log(n) / n * k,
        "hqic": ld + 2 * np.log(np.log(n)) / n * k,
        "fpe": d * np.log((n + lag * d) / (n - lag * d)) + ld,  # logarithm: same minimiser
    }
    return M, R, crit


def lin_model(k, seed):
    return [None, lingam.DirectLiNGAM(), lingam.ICALiNGAM(random_state=seed, max_iter=200), lingam.DirectLiNGAM(measure="pwling")][k]


def fresh(k, seed):
    return lin_model(k, seed) or lingam.DirectLiNGAM()


def check_rows(m, tag, X, blocks, order, rows, pk=None):
    """blocks: list of (lag, array(n, d)) columns already aligned, block 0 is contemporaneous;
    rows[i] is the concatenated row of variable i over the blocks"""
    d = X.shape[1]
    J = np.concatenate(blocks, axis=1)
    s = J.std(0)
    if (s == 0).any() or np.linalg.cond((J - J.mean(0)) / s) > 1e6:
        m.skip("degenerate")
        return
    for pos, i in enumerate(order):
        adm = [int(v) for v in order[:pos]] + list(range(d, J.shape[1]))
        row = rows[i]
        m.check("other-entries-zero", not np.any(np.delete(row, adm)), tag=tag, row=row, i=i)
        kept = [j for j in adm if row[j] != 0]
        w = oracle.ols(J[:, kept], J[:, i]) if kept else np.zeros(0)
        m.check("pruned-row-least-squares", np.allclose(row[kept] * s[kept] / s[i], w * s[kept] / s[i], rtol=1e-5, atol=1e-7), tag=tag, got=row[kept], want=w, i=i, kept=kept)
        mask, margin = oracle.adaptive_lasso_select(J, adm, int(i))
        if mask is None or margin < 1e-6:
            m.skip("bic-tie")
            continue
        m.check("pruned-row-selection", np.array_equal(mask, row[adm] != 0), tag=tag, got=row, want=mask, i=i, margin=margin)


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = fn()
    return float(v), any("causal order" in str(x.message) for x in w)


def run(m, rng, c, supplied=False):
    X, _, _, _ = gen.var_data(rng, c["n"], c["d"], c["true"])
    if c["shift"]:
        X = X + rng.uniform(-1, 1, c["d"])
    d, n = c["d"], c["n"]
    lags = min(c["lags"], max(1, n // (4 * d)))
    crit = CRIT[c["crit"]]
    seed = int(rng.randint(100))
    lm = lin_model(c["model"], seed)
    kw = dict(lags=lags, criterion=crit, prune=c["prune"], lingam_model=lm)
    if supplied:
        coefs = rng.uniform(-0.4, 0.4, (lags, d, d))
        kw["ar_coefs"] = coefs
        if c["crit"] == 1:
            del kw["lags"]  # what is supplied decides
    model = lingam.VARLiNGAM(**kw).fit(X.copy())
    A = np.asarray(model.adjacency_matrices_, float)
    R = np.asarray(model.residuals_, float)
    L = len(A) - 1
    if supplied:
        M, want = coefs, X[lags:] - sum(X[lags - k : n - k] @ coefs[k - 1].T for k in range(1, lags + 1))
        m.check("lag-choice", L == lags, got=L, want=lags)
    else:
        fits = {k: reduced(X, k) for k in range(1, lags + 1)}
        if crit is None:
            best, tie = lags, False
        else:
            vals = sorted((f[2][crit], k) for k, f in fits.items())
            best = vals[0][1]
            tie = len(vals) > 1 and vals[1][0] - vals[0][0] < 1e-9
        if tie:
            m.skip("criterion-tie")
            return
        if not m.check("lag-choice", L == best, got=L, want=best, crit=crit):
            return
        M, want, _ = fits[best]
    if not m.check("residuals", R.shape == want.shape and np.allclose(R, want, rtol=1e-6, atol=1e-8), got=R[:3], want=want[:3]):
        return
    inst = fresh(c["model"], seed).fit(R)
    order = [int(v) for v in model.causal_order_]
    m.check("instantaneous-order", order == [int(v) for v in inst.causal_order_], got=order, want=inst.causal_order_)
    if not c["prune"]:
        m.close("instantaneous", A[0], inst.adjacency_matrix_, rtol=1e-6, atol=1e-9)
        for k in range(L):
            m.close("lagged-identity", A[k + 1], (np.eye(d) - A[0]) @ M[k], rtol=1e-6, atol=1e-8, lag=k + 1)
    else:
        m.check("instantaneous", not np.triu(A[0][np.ix_(order, order)]).any(), got=A[0], order=order)
        blocks = [X[L - k : n - k] for k in range(L + 1)]
        check_rows(m, "var", X, blocks, order, np.concatenate(A, axis=1))
    if A[1:].any():
        m.state(X, A)
    # total effects
    big = np.zeros((d * (L + 1),) * 2)
    for r in range(L + 1):
        for k in range(L + 1 - r):
            big[r * d : (r + 1) * d, (r + k) * d : (r + k + 1) * d] = A[k]
    TE, n_paths = oracle.total_effects(big), oracle.total_effects((big != 0).astype(float))
    lagsq = list(range(L + 1)) + [L + 1, L + 1 + int(rng.randint(4))]
    for _ in range(8):
        fl = int(lagsq[rng.randint(len(lagsq))])
        a, b = [int(v) for v in rng.choice(d, 2, replace=False)]
        if fl and rng.rand() < 0.3:
            b = a
        against = fl == 0 and order.index(a) > order.index(b)
        v, w = warned(lambda: model.estimate_total_effect(X.copy(), a, b, from_lag=fl) if fl else model.estimate_total_effect(X.copy(), a, b))
        m.check("warns-iff-against-order", w == against, got=w, a=a, b=b, lag=fl)
        # parents of the cause, which sits fl steps back
        K = L + fl
        col = lambda lag, j: X[K - lag : n - lag, j]
        Z = [col(fl, a)] + [col(fl + k, j) for k in range(L + 1) for j in range(d) if A[k][a, j] != 0]
        Z = np.column_stack(Z)
        if np.linalg.cond((Z - Z.mean(0)) / Z.std(0)) < 1e6 and len(Z) > Z.shape[1] + 1:
            m.close("effect-regression", v, oracle.ols(Z, col(0, b))[0], rtol=1e-5, atol=1e-8, a=a, b=b, lag=fl)
        if fl <= L and n_paths[b, a + d * fl] < 2000:
            v, w = warned(lambda: model.estimate_total_effect2(d, a, b, from_lag=fl))
            m.check("warns-iff-against-order", w == against, got=w, a=a, b=b, lag=fl)
            m.close("effect-paths", v, TE[b, a + d * fl], rtol=1e-6, atol=1e-9, a=a, b=b, lag=fl)


def case_estimated(m, rng, c):
    run(m, rng, c)


case_long = case_wide = case_deep = case_estimated


def case_supplied(m, rng, c):
    run(m, rng, c, True)


case_supplied_wide = case_supplied
