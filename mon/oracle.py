"""Independent reference oracles shared by several properties."""
import numpy as np
from scipy import stats


def ols(Z, y):
    """least squares with intercept, via centred lstsq (own implementation)"""
    Z = np.asarray(Z, float)
    y = np.asarray(y, float)
    Zc = Z - Z.mean(0)
    yc = y - y.mean()
    s = np.sqrt((Zc**2).sum(0))
    s[s == 0] = 1.0
    coef, *_ = np.linalg.lstsq(Zc / s, yc, rcond=None)
    return coef / s


def is_acyclic(A):
    """A[i,j] != 0 : j -> i.  Kahn's algorithm."""
    A = np.asarray(A) != 0
    left = list(range(len(A)))
    while left:
        src = [i for i in left if not A[i, left].any()]
        if not src:
            return False
        left = [i for i in left if i not in src]
    return True


def ancestors_closure(A):
    """R[i,j] True if there is a directed path j -> ... -> i"""
    R = np.asarray(A) != 0
    for k in range(len(R)):
        R = R | (R[:, [k]] & R[[k], :])
    return R


def total_effects(B):
    """T[i,j]: total effect of j on i in the linear SEM with weights B"""
    B = np.nan_to_num(np.asarray(B, float))
    if is_acyclic(B):  # nilpotent: the series of path sums, exactly zero where there is no path
        S, P = np.zeros_like(B), B.copy()
        while (P != 0).any() and len(B):
            S, P = S + P, P @ B
            P[~ancestors_closure(B)] = 0
        return S
    return np.linalg.inv(np.eye(len(B)) - B) - np.eye(len(B))


def all_paths(B, a, b, thr=0.0):
    """every directed path a -> b (simple), by recursion; [(path, effect)]"""
    B = np.nan_to_num(np.asarray(B, float))
    out = []

    def rec(path, eff):
        v = path[-1]
        if v == b:
            out.append((tuple(path), eff))
            return
        for w in range(len(B)):
            if abs(B[w, v]) > thr and w not in path:
                rec(path + [w], eff * B[w, v])

    rec([a], 1.0)
    return out


# -- HSIC ---------------------------------------------------------------------
def sqdist(X):
    X = np.asarray(X, float)
    X = X.reshape(-1, 1) if X.ndim == 1 else X
    D = np.zeros((len(X), len(X)))
    for j in range(X.shape[1]):
        D += (X[:, j][:, None] - X[:, j][None, :]) ** 2
    return D


def hsic_width(X):
    X = np.asarray(X, float)
    X = X.reshape(-1, 1) if X.ndim == 1 else X
    D = sqdist(X[:100])
    v = D[np.triu_indices(len(D), 1)]
    v = v[v > 0]
    return np.sqrt(0.5 * np.median(v))


def hsic(X, Y, bw="mdbs", wx=None, wy=None):
    """statistic and gamma p-value, from explicit double centring"""
    X = np.asarray(X, float)
    Y = np.asarray(Y, float)
    X = X.reshape(-1, 1) if X.ndim == 1 else X
    Y = Y.reshape(-1, 1) if Y.ndim == 1 else Y
    n = len(X)

    def width(Z):
        if bw == "mdbs":
            return hsic_width(Z)
        # statsmodels' rules of thumb, with A = min(std, IQR/1.349)
        sd = np.std(Z, axis=0, ddof=1)
        iqr = (stats.scoreatpercentile(Z, 75) - stats.scoreatpercentile(Z, 25)) / 1.349
        A = np.where(iqr > 0, np.minimum(sd, iqr), sd)
        return (1.059 if bw == "scott" else 0.9) * A * n ** (-0.2)

    K = np.exp(-sqdist(X) / (2 * (width(X) if wx is None else wx) ** 2))
    L = np.exp(-sqdist(Y) / (2 * (width(Y) if wy is None else wy) ** 2))
    H = np.eye(n) - 1.0 / n
    Kc, Lc = H @ K @ H, H @ L @ H
    stat = np.sum(Kc * Lc) / n
    off = ~np.eye(n, dtype=bool)
    v = np.sum(((Kc * Lc / 6.0) ** 2)[off]) / (n * (n - 1))
    v = v * 72.0 * (n - 4) * (n - 5) / (n * (n - 1) * (n - 2) * (n - 3))
    mx, my = K[off].mean(), L[off].mean()
    mean = (1 + mx * my - mx - my) / n
    p = stats.gamma.sf(stat, mean**2 / v, scale=v * n / mean)
    return float(stat), float(p)


# -- adaptive lasso -------------------------------------------------------------
def adaptive_lasso_select(X, predictors, target, gamma=1.0):
    """Parents kept by the BIC adaptive lasso, with the gap to the runner-up.

    Own computation of the criterion over the LARS path (the path itself is
    scikit-learn's lars_path).  Returns (mask, margin): margin is the BIC gap
    between the best support and the best one with a different support.
    """
    from sklearn.linear_model import lars_path

    X = np.asarray(X, float)
    S = (X - X.mean(0)) / X.std(0)
    Z, y = S[:, predictors], S[:, target]
    n, p = Z.shape
    w0 = ols(Z, y)
    w = np.abs(w0) ** gamma
    Zw = Z * w
    Zw = Zw - Zw.mean(0)
    yc = y - y.mean()
    _, _, path = lars_path(
        Zw, yc,
        method="lasso", max_iter=500, alpha_min=0.0, eps=np.finfo(float).eps,
    )
    full = Z @ w0
    rss_full = np.sum((yc - (full - full.mean())) ** 2)
    sigma2 = rss_full / (n - p - 1)
    if not np.isfinite(sigma2) or sigma2 <= 1e-12:
        return None, 0.0
    best = {}
    order = []
    for k in range(path.shape[1]):
        beta = path[:, k]
        rss = np.sum((yc - Zw @ beta) ** 2)
        df = int(np.sum(np.abs(beta) > np.finfo(float).eps))
        bic = n * np.log(2 * np.pi * sigma2) + rss / sigma2 + np.log(n) * df
        key = tuple(np.abs(beta * w) > 0)
        order.append((bic, k, key))
        best[key] = min(best.get(key, np.inf), bic)
    # first minimum along the path decides
    bmin = min(b for b, _, _ in order)
    key = next(kk for b, _, kk in order if b == bmin)
    others = [v for kk, v in best.items() if kk != key]
    margin = (min(others) - bmin) if others else np.inf
    # entries so small that rounding could zero them make the support undecided
    kbest = next(k for b, k, _ in order if b == bmin)
    nz = np.abs(path[:, kbest])
    tiny = nz[(nz > 0) & (nz < 1e-10)]
    if len(tiny):
        margin = 0.0
    return np.array(key), margin


# -- direct search scores -----------------------------------------------------
def residual(a, b):
    return a - (np.mean((a - a.mean()) * (b - b.mean())) / np.var(b)) * b


def _lncosh(u):
    u = np.abs(u)
    return u + np.log1p(np.exp(-2 * u)) - np.log(2.0)


def entropy(u):
    k1, k2, g = 79.047, 7.4129, 0.37457
    return (
        (1 + np.log(2 * np.pi)) / 2
        - k1 * (np.mean(_lncosh(u)) - g) ** 2
        - k2 * (np.mean(u * np.exp(-(u**2) / 2))) ** 2
    )


def z(x):
    return (x - x.mean()) / x.std()


def pw_score(X, i, others, fixed_i=(), fixed_j=()):
    """sum over j of min(0, difference of mutual information)^2 (small = exogenous)

    fixed_j: js whose residual on i is replaced by themselves (soft prior)."""
    t = 0.0
    zi = z(X[:, i])
    hi = entropy(zi)
    for j in others:
        zj = z(X[:, j])
        r = np.mean(zi * zj)
        rij = zi if j in fixed_i else zi - r * zj
        rji = zj if j in fixed_j else zj - r * zi
        diff = (entropy(zj) + entropy(rij / rij.std())) - (hi + entropy(rji / rji.std()))
        t += min(0.0, diff) ** 2
    return t


def kernel_mi(x1, x2, kappa, sigma):
    n = len(x1)
    K1 = np.exp(-((x1[:, None] - x1[None, :]) ** 2) / (2 * sigma**2))
    K2 = np.exp(-((x2[:, None] - x2[None, :]) ** 2) / (2 * sigma**2))
    A = K1 + n * kappa / 2 * np.eye(n)
    Bm = K2 + n * kappa / 2 * np.eye(n)
    A2, B2 = A @ A, Bm @ Bm
    C = K1 @ K2
    big = np.block([[A2, C], [C.T, B2]])
    _, l1 = np.linalg.slogdet(big)
    _, a = np.linalg.slogdet(A2)
    _, b = np.linalg.slogdet(B2)
    return -0.5 * (l1 - a - b)
