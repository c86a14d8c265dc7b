"""Workload generators (data, graphs, prior knowledge, containers)."""
import numpy as np

NOISES = ["uniform", "laplace", "exp", "cube", "bimodal", "t"]


def noise(rng, kind, n):
    if kind == "uniform":
        x = rng.uniform(-1, 1, n)
    elif kind == "laplace":
        x = rng.laplace(size=n)
    elif kind == "exp":
        x = rng.exponential(size=n)
    elif kind == "cube":
        x = rng.normal(size=n) ** 3
    elif kind == "bimodal":
        x = rng.choice([-1.0, 1.0], size=n) + 0.3 * rng.normal(size=n)
    elif kind == "t":
        x = rng.standard_t(5, size=n)
    elif kind == "gauss":
        x = rng.normal(size=n)
    else:
        raise ValueError(kind)
    return (x - x.mean()) / x.std()


def dag(rng, d, density=0.5, lo=0.4, hi=1.5, order=None):
    """random weighted DAG; returns (B, order) with B[effect, cause]"""
    order = rng.permutation(d) if order is None else np.asarray(order)
    B = np.zeros((d, d))
    for a in range(d):
        for b in range(a):
            if rng.rand() < density:
                B[order[a], order[b]] = rng.choice([-1, 1]) * rng.uniform(lo, hi)
    return B, [int(i) for i in order]


def linear_data(rng, n, d, density=0.5, kinds=None, scale=True, B=None, order=None):
    """LiNGAM data; returns X, B, order"""
    if B is None:
        B, order = dag(rng, d, density, order=order)
    kinds = NOISES if kinds is None else kinds
    X = np.zeros((n, d))
    for i in order:
        e = noise(rng, kinds[rng.randint(len(kinds))], n)
        if scale:
            e = e * rng.uniform(0.5, 2.0)
        X[:, i] = X @ B[i] + e
    return X, B, order


def degenerate(rng, X):
    """the same data with a constant, repeated, mirrored or exactly dependent column"""
    X = np.array(X, dtype=float)
    d = X.shape[1]
    for _ in range(int(rng.choice([1, 1, 2]))):
        a, b = rng.choice(d, 2, replace=False)
        k = rng.randint(5)
        if k == 0:
            X[:, a] = [0.0, 3.0, -1e6][rng.randint(3)]
        elif k == 1:
            X[:, a] = X[:, b]
        elif k == 2:
            X[:, a] = -2.0 * X[:, b] + 1.0
        elif k == 3:
            X[:, a] = X[:, [j for j in range(d) if j != a]].sum(axis=1)
        else:
            X[:, a] = (X[:, a] > np.median(X[:, a])) * 1.0
            X[1:, b] = X[0, b]
    return X


def messy_data(rng, n, d, flavour):
    """data that need not follow any LiNGAM model"""
    if flavour == "lingam":
        return linear_data(rng, n, d, rng.uniform(0.2, 0.9))[0]
    if flavour == "gauss":
        return linear_data(rng, n, d, 0.6, kinds=["gauss"])[0]
    if flavour == "indep":
        return np.column_stack(
            [noise(rng, NOISES[rng.randint(len(NOISES))], n) for _ in range(d)]
        )
    if flavour == "cyclic":
        A = rng.uniform(-0.6, 0.6, (d, d)) * (rng.rand(d, d) < 0.5)
        np.fill_diagonal(A, 0)
        E = np.column_stack([noise(rng, NOISES[rng.randint(len(NOISES))], n) for _ in range(d)])
        return E @ np.linalg.inv(np.eye(d) - A).T
    if flavour == "confounded":
        X = linear_data(rng, n, d, 0.4)[0]
        for _ in range(2):
            L = noise(rng, NOISES[rng.randint(len(NOISES))], n)
            for j in rng.choice(d, 2, replace=False):
                X[:, j] += rng.choice([-1, 1]) * rng.uniform(0.7, 1.5) * L
        return X
    if flavour == "scaled":
        X = linear_data(rng, n, d, 0.5)[0]
        return X * 10.0 ** rng.uniform(-4, 4, d) + 10.0 ** rng.uniform(-2, 3, d)
    if flavour == "nonlinear":
        X = linear_data(rng, n, d, 0.4)[0]
        X[:, rng.randint(d)] = np.tanh(X[:, rng.randint(d)]) + 0.5 * noise(rng, "uniform", n)
        return X
    if flavour == "heavy":
        X = linear_data(rng, n, d, 0.6, kinds=["cube", "t"])[0]
        return X
    if flavour == "discrete":
        X = linear_data(rng, n, d, 0.5)[0]
        return np.round(X * 3)
    if flavour == "weak":
        B, order = dag(rng, d, 0.9, 0.02, 0.2)
        return linear_data(rng, n, d, B=B, order=order, scale=False)[0]
    raise ValueError(flavour)


FLAVOURS = ["weak", "lingam", "gauss", "indep", "cyclic", "confounded", "scaled", "nonlinear", "heavy", "discrete"]


def ngroups(rng):
    """number of data sets in a multi-group case"""
    return int(rng.choice([2, 2, 3, 4, 5, 6], p=[0.25, 0.15, 0.25, 0.15, 0.1, 0.1]))


def nrows(rng, n, k):
    """sizes of k groups: increasing, decreasing, equal or very different"""
    how = rng.randint(4)
    if how == 0:
        return [n + 7 * j for j in range(k)]
    if how == 1:
        return [n + 7 * (k - j) for j in range(k)]
    if how == 2:
        return [n] * k
    return [n + int(rng.randint(0, n)) for _ in range(k)]


def var_data(rng, n, d, lags=1, density=0.4, kinds=None, burn=50):
    """SVAR-LiNGAM series: x(t) = B0 x(t) + sum B_k x(t-k) + e(t)"""
    B0, order = dag(rng, d, density, 0.3, 0.9)
    Bs = []
    for k in range(lags):
        Bk = rng.uniform(-0.5, 0.5, (d, d)) * (rng.rand(d, d) < density)
        Bs.append(Bk)
    A = np.linalg.inv(np.eye(d) - B0)

    def radius():
        C = np.zeros((d * lags, d * lags))
        for k in range(lags):
            C[:d, k * d : (k + 1) * d] = A @ Bs[k]
        if lags > 1:
            C[d:, :-d] = np.eye(d * (lags - 1))
        return np.max(np.abs(np.linalg.eigvals(C)))

    r = radius()
    while r > 0.85:
        Bs = [b * 0.8 for b in Bs]
        r = radius()
    kinds = NOISES if kinds is None else kinds
    kk = [kinds[rng.randint(len(kinds))] for _ in range(d)]
    E = np.column_stack([noise(rng, k, n + burn) for k in kk])
    X = np.zeros((n + burn, d))
    for t in range(n + burn):
        v = E[t].copy()
        for k in range(lags):
            if t - k - 1 >= 0:
                v += Bs[k] @ X[t - k - 1]
        X[t] = A @ v
    return X[burn:], B0, Bs, order


def containers(X):
    """the same numbers in different containers"""
    import pandas as pd

    n, d = X.shape
    wide = np.zeros((n * 2, d * 2))
    wide[::2, ::2] = X
    return {
        "c": np.ascontiguousarray(X),
        "f": np.asfortranarray(X),
        "list": X.tolist(),
        "df": pd.DataFrame(X, columns=[f"v{i}" for i in range(d)]),
        "df_idx": pd.DataFrame(
            X, columns=[f"v{i}" for i in range(d)], index=[f"r{i}" for i in range(n)][::-1]
        ),
        "strided": wide[::2, ::2],
        "readonly": _ro(X),
    }


def _ro(X):
    X = X.copy()
    X.flags.writeable = False
    return X


def spread(seed, tier, table):
    """table: list of (kind, n_quick, n_thorough, params-factory(i, rng))"""
    out = []
    for kind, nq, nt, fac in table:
        k = nq if tier == "quick" else nt
        rng = np.random.RandomState([seed, sum(map(ord, kind))])
        for i in range(k):
            p = fac(i, rng) if fac else {}
            c = {"kind": kind, "seed": int(seed) * 100003 + i}
            c.update({a: (b.item() if isinstance(b, np.generic) else b) for a, b in p.items()})
            out.append(c)
    return out
