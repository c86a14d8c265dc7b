"""C03: reported weights are least-squares coefficients in the data's own units."""
import numpy as np
import lingam
from lingam.utils import predict_adaptive_lasso

from mon import gen, oracle
from mon.props.c02 import make_pk

RULE = (
    "data of 9 flavours (incl. badly scaled, integer, heavy-tailed) x linear estimators x prior knowledge; "
    "every row of every fitted matrix is compared with an independent regression and an independent BIC "
    "path selection; non-trivial: a row with at least one admissible predictor; distinct by (estimator, matrix)"
)
REQUIRED = {"row-is-least-squares": 2000, "row-selection": 1500, "other-entries-zero": 2000}
SLOW_FIRST = ["rcd", "mgrcd", "bottomup"]
ASSUMPTIONS = [
    "scikit-learn's lars_path and numpy's lstsq are the trusted base of the reference",
    "selections whose BIC gap is below 1e-6 are counted as inconclusive",
]
F = gen.FLAVOURS


def cases(seed, tier):
    def std(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4, 5, 6, 9, 12])), "n": int(r.choice([20, 40, 100, 250, 600, 2500, 9000])), "pk": i % 3 == 1,
                "units": ["none", "scale", "int", "shift", "none"][i % 5]}

    def small(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4])), "n": int(r.choice([50, 90])), "units": ["none", "scale", "shift"][i % 3], "pk": i % 3 == 1}

    return gen.spread(seed, tier, [
        ("lasso", 900, 9000, std), ("direct", 400, 3500, std), ("ica", 200, 2000, std), ("highdim", 150, 1200, std), ("multi", 160, 1500, std),
        ("bottomup", 90, 600, small), ("rcd", 90, 600, small), ("mgrcd", 50, 300, small), ("longitudinal", 40, 300, None),
        ("wide", 30, 200, None), ("faint", 60, 500, None),
    ])


def in_units(rng, X, units):
    if units == "scale":
        return X * 10.0 ** rng.uniform(-3, 3, X.shape[1])
    if units == "shift":
        return X + rng.uniform(-1, 1, X.shape[1]) * 10.0 ** rng.uniform(0, 3, X.shape[1])
    if units == "int":
        return np.round(X / X.std(0) * rng.choice([3, 20, 1000])).astype(int)
    return X


def data(rng, c, d=None):
    n = max(c["n"], 2 * c["d"] + 6)
    X = in_units(rng, gen.messy_data(rng, n, d or c["d"], c["flavour"]), c["units"])
    return X


def degenerate(X):
    Z = np.asarray(X, float)
    s = Z.std(0)
    if (s <= 0).any():
        return True
    return np.linalg.cond((Z - Z.mean(0)) / s) > 1e6


def check_row(m, name, X, target, row, admissible, select=True, gamma=1.0):
    """row: full row of the adjacency matrix"""
    X = np.asarray(X, float)
    row = np.asarray(row, float)
    admissible = sorted(int(a) for a in admissible)
    out = [j for j in range(X.shape[1]) if j not in admissible]
    m.check("other-entries-zero", not np.any(row[out]), tag=name, target=target, row=row, admissible=admissible)
    if not admissible:
        return
    kept = [j for j in admissible if row[j] != 0]
    sd = X.std(0)
    if kept:
        want = oracle.ols(X[:, kept], X[:, target])
        a = row[kept] * sd[kept] / sd[target]
        b = want * sd[kept] / sd[target]
        m.check("row-is-least-squares", np.allclose(a, b, rtol=1e-6, atol=1e-7), tag=name, target=target, kept=kept, got=row[kept], want=want)
    else:
        m.check("row-is-least-squares", True)
    if select:
        mask, margin = oracle.adaptive_lasso_select(X, admissible, target, gamma)
        if mask is None or margin < 1e-6:
            m.skip("bic-tie")
            return
        m.check("row-selection", np.array_equal(mask, row[admissible] != 0), tag=name, target=target, got=row, admissible=admissible, want=mask, margin=margin, n=len(X))


def rows_by_order(m, name, X, order, B, pk=None, select=True):
    order = [int(v) for v in order]
    for i, t in enumerate(order):
        adm = order[:i]
        if pk is not None:
            adm = [j for j in adm if pk[t, j] != 0]
        check_row(m, name, X, t, B[t], adm, select)
    m.state(name, np.asarray(B))


def case_faint(m, rng, c):
    """almost deterministic targets: an effect that is tiny in standard units is still far above the noise"""
    n, k = int(rng.choice([60, 200, 800])), int(rng.choice([2, 3, 5]))
    Z = np.column_stack([gen.noise(rng, gen.NOISES[rng.randint(len(gen.NOISES))], n) for _ in range(k)])
    Z = (Z - Z.mean(0)) / Z.std(0)
    w = rng.choice([-1, 1], k) * 10.0 ** -rng.uniform(1, 4, k)
    w[0] = 1.0
    y = Z @ w + np.abs(w).min() * float(rng.choice([0.02, 0.3, 3.0])) * rng.laplace(size=n)
    X = in_units(rng, np.column_stack([Z, y]), ["none", "scale"][rng.randint(2)])
    preds = [int(v) for v in rng.permutation(k)]
    got = predict_adaptive_lasso(X, preds, k)
    row = np.zeros(k + 1)
    row[preds] = got
    sd = X.std(0)
    kept = [j for j in range(k) if row[j] != 0]
    if kept:
        want = oracle.ols(X[:, kept], X[:, k]) * sd[kept] / sd[k]
        have = row[kept] * sd[kept] / sd[k]
        m.check("row-is-least-squares", np.allclose(have, want, rtol=1e-4, atol=1e-8), tag="faint", got=have, want=want)
    mask, margin = oracle.adaptive_lasso_select(X, preds, k, 1.0)
    if mask is None or margin < 1e-6:
        m.skip("bic-tie")
        return
    m.check("row-selection", np.array_equal(mask, row[preds] != 0), tag="faint", got=row, preds=preds, want=mask, margin=margin, n=n)
    m.state("faint", row)


def case_lasso(m, rng, c):
    X = data(rng, c)
    if degenerate(X):
        m.skip("degenerate-data")
        return
    d = X.shape[1]
    perm = [int(v) for v in rng.permutation(d)]
    t = perm[0]
    preds = perm[1 : 1 + rng.randint(1, d)] if d > 1 else []
    gamma = float(rng.choice([1.0, 1.0, 0.5, 2.0]))
    got = predict_adaptive_lasso(X, preds, t, gamma=gamma) if gamma != 1.0 else predict_adaptive_lasso(X, preds, t)
    m.check("coef-shape", np.shape(got) == (len(preds),), got=np.shape(got))
    row = np.zeros(d)
    row[preds] = got
    # the coefficients come in the order the predictors were listed
    check_row(m, "lasso", X, t, row, preds, gamma=gamma)
    m.state("lasso", row)


def case_direct(m, rng, c):
    X = data(rng, c)
    if degenerate(X):
        m.skip("degenerate-data")
        return
    pk = make_pk(rng, c["d"], "random") if c["pk"] else None
    soft = bool(c["pk"] and rng.rand() < 0.3)
    model = lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit(X)
    rows_by_order(m, "direct", X, model.causal_order_, model.adjacency_matrix_, pk)


def case_ica(m, rng, c):
    X = data(rng, c)
    if degenerate(X):
        m.skip("degenerate-data")
        return
    model = lingam.ICALiNGAM(random_state=0, max_iter=200).fit(X)
    rows_by_order(m, "ica", X, model.causal_order_, model.adjacency_matrix_)


def case_highdim(m, rng, c):
    X = data(rng, c)
    if rng.rand() < 0.15:  # barely more samples than variables
        d = int(rng.choice([3, 4, 6, 9]))
        X = in_units(rng, gen.linear_data(rng, d + int(rng.choice([1, 1, 2, 3])), d, 0.5)[0], c["units"])
    if degenerate(X):
        m.skip("degenerate-data")
        return
    model = lingam.HighDimDirectLiNGAM().fit(X)
    rows_by_order(m, "highdim", X, model.causal_order_, model.adjacency_matrix_)


def case_wide(m, rng, c):
    """fewer samples than variables: still least squares on whatever was kept"""
    d = int(rng.choice([8, 10]))
    X = gen.linear_data(rng, int(rng.choice([d - 1, d])), d, 0.3)[0]
    model = lingam.HighDimDirectLiNGAM().fit(X)
    order = [int(v) for v in model.causal_order_]
    B = model.adjacency_matrix_
    for i, t in enumerate(order):
        kept = [j for j in order[:i] if B[t, j] != 0]
        if len(kept) < len(X) - 2:
            check_row(m, "wide", X, t, B[t], order[:i], select=False)
    m.state("wide", B)


def case_multi(m, rng, c):
    k = gen.ngroups(rng)
    Xs = [data(rng, dict(c, n=n)) for n in gen.nrows(rng, min(c["n"], 2500), k)]
    if any(degenerate(X) for X in Xs):
        m.skip("degenerate-data")
        return
    pk = make_pk(rng, c["d"], "random") if c["pk"] else None
    model = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit(Xs)
    for X, B in zip(Xs, model.adjacency_matrices_):
        rows_by_order(m, "multi", X, model.causal_order_, B, pk)


def case_bottomup(m, rng, c):
    X = data(rng, c)
    if degenerate(X):
        m.skip("degenerate-data")
        return
    pk = make_pk(rng, c["d"], "random") if c["pk"] else None
    model = lingam.BottomUpParceLiNGAM(alpha=float(rng.choice([0.0, 0.05, 0.3])), prior_knowledge=pk).fit(X)
    B = model.adjacency_matrix_
    earlier = []
    for item in model.causal_order_:
        if hasattr(item, "__iter__"):
            block = [int(v) for v in item]
            for v in block:
                row = np.nan_to_num(B[v])
                check_row(m, "bottomup-block", X, v, row, [])
            earlier += block
            continue
        t = int(item)
        adm = [j for j in earlier if pk is None or pk[t, j] != 0]
        m.check("resolved-rows-defined", not np.isnan(B[t]).any(), tag="bottomup", row=B[t])
        check_row(m, "bottomup", X, t, B[t], adm)
        earlier.append(t)
    m.state("bottomup", B)


def _rcd_rows(m, name, X, B, anc):
    for t in range(len(B)):
        row = np.nan_to_num(B[t])
        check_row(m, name, X, t, row, sorted(anc[t]), select=False)
    m.state(name, B)


def case_rcd(m, rng, c):
    X = data(rng, c)
    if degenerate(X):
        m.skip("degenerate-data")
        return
    model = lingam.RCD(cor_alpha=0.05, ind_alpha=float(rng.choice([0.001, 0.05])), shapiro_alpha=float(rng.choice([0.01, 1.0])), max_explanatory_num=int(rng.choice([1, 2, 3]))).fit(X)
    _rcd_rows(m, "rcd", X, model.adjacency_matrix_, model.ancestors_list_)


def case_mgrcd(m, rng, c):
    Xs = [data(rng, dict(c, flavour="lingam", n=n)) for n in gen.nrows(rng, c["n"], gen.ngroups(rng))]
    model = lingam.MultiGroupRCD(cor_alpha=0.05, ind_alpha=0.001, shapiro_alpha=1.0).fit(Xs)
    for X, B in zip(Xs, model.adjacency_matrices_):
        _rcd_rows(m, "mgrcd", X, B, model.ancestors_list_)


def case_longitudinal(m, rng, c):
    from mon.props.c01 import longitudinal_series

    d, T = int(rng.choice([2, 3])), int(rng.choice([2, 3, 4]))
    X, _, _, _ = longitudinal_series(rng, 80, d, T, 1)
    X = [x * np.arange(1, d + 1) * 3 + 5 for x in X]
    model = lingam.LongitudinalLiNGAM(n_lags=1).fit(X)
    A = np.asarray(model.adjacency_matrices_)
    for t in range(1, T):
        order = [int(v) for v in model.causal_orders_[t]]
        for i, v in enumerate(order):
            kept = [u for u in order[:i] if A[t, 0, v, u] != 0]
            m.check("other-entries-zero", not np.any(A[t, 0, v, [u for u in range(d) if u not in order[:i]]]), tag="longitudinal", row=A[t, 0, v], order=order)
            # residuals after the lagged variables are regressed out of each variable
            Z = np.column_stack([np.ones(len(X[t])), X[t - 1]])
            R = X[t] - Z @ np.linalg.lstsq(Z, X[t], rcond=None)[0]
            if kept:
                m.close("row-is-least-squares", A[t, 0, v, kept], oracle.ols(R[:, kept], R[:, v]), rtol=1e-5, atol=1e-7, tag="longitudinal")
    m.state("longitudinal", A)
