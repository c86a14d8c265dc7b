"""C12: the kernel independence test computes the documented statistic and p-value."""
import numpy as np
from lingam.hsic import get_gram_matrix, get_kernel_width, hsic_test_gamma, hsic_teststat

from mon import gen, oracle
from mon.ref_tests import fuzzy

RULE = (
    "pairs of samples (independent, linearly, nonlinearly and heteroscedastically dependent, discrete, heavy-tailed, multivariate, n = 6..2100, "
    "several units) x bandwidth methods, each compared with explicitly double-centred kernels and with related executions "
    "(swapped, shifted, rescaled, jointly reordered, other containers); non-trivial: a p-value strictly between 0 and 1; distinct by (samples, method)"
)
REQUIRED = {"statistic": 900, "p-value": 900, "width": 500, "symmetric": 900, "shift-invariant": 500, "pairs-reordered": 300, "in-range": 900, "inputs-unaltered": 900}


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([6, 7, 10, 25, 60, 99, 100, 101, 150, 400])), "rel": ["indep", "linear", "square", "hetero", "sin", "same"][i % 6], "dx": int(r.choice([1, 1, 1, 2, 3])), "dy": int(r.choice([1, 1, 2, 4])), "kind": ["plain", "discrete", "scaled", "heavy", "binary"][i // 6 % 5]}

    def g(i, r):
        p = f(i, r)
        p["data"] = p.pop("kind")
        return p

    return gen.spread(seed, tier, [("pair", 1200, 12000, g), ("long", 10, 60, lambda i, r: dict(g(i, r), n=[600, 1001, 1300, 2100][i % 4]))])


def sample(rng, c):
    n, dx, dy = c["n"], c["dx"], c["dy"]
    X = np.column_stack([gen.noise(rng, gen.NOISES[rng.randint(6)], n) for _ in range(dx)])
    E = np.column_stack([gen.noise(rng, gen.NOISES[rng.randint(6)], n) for _ in range(dy)])
    s = X.sum(1, keepdims=True)
    Y = {"indep": E, "linear": 0.7 * s + E, "square": s**2 + 0.5 * E, "hetero": s * E, "sin": np.sin(3 * s) + 0.3 * E, "same": np.repeat(s, dy, 1)}[c["rel"]]
    if c["data"] == "discrete":
        X, Y = np.round(X * 2), np.round(Y * 2)
    elif c["data"] == "binary":
        X = (X > 0).astype(float)
    elif c["data"] == "scaled":
        X, Y = (X + rng.uniform(-5, 5)) * 10.0 ** rng.uniform(-4, 4), Y * 10.0 ** rng.uniform(-4, 4)
    elif c["data"] == "heavy":
        X, Y = X**3, Y * np.abs(Y)
    return X, Y


def good(Z):
    return all(len(np.unique(Z[:, j])) > 1 for j in range(Z.shape[1]))


def near(a, b, rtol, atol):
    return np.allclose(a, b, rtol=rtol, atol=atol)


def same_p(a, b, tol):
    """relative in the bulk, on the logarithmic scale far out in the tail (combined tests add up log p)"""
    if a < 1e-280 or b < 1e-280:
        return a < 1e-250 and b < 1e-250
    return abs(np.log(a) - np.log(b)) <= tol * max(1.0, abs(np.log(b)) * 3)


def same(r1, r2, loose=1.0):
    """two (statistic, p) pairs agree: statistic relative, p relative in the bulk and absolute in the tail"""
    return near(r1[0], r2[0], 1e-6 * loose, 1e-10) and same_p(r1[1], r2[1], 1e-5 * loose)


def case_pair(m, rng, c):
    X, Y = sample(rng, c)
    n = c["n"]
    if not (good(X[:100]) and good(Y[:100])):
        m.skip("constant-sample")
        return
    if fuzzy(X) or fuzzy(Y):
        m.skip("distances-at-rounding-level")
        return
    X0, Y0 = X.copy(), Y.copy()
    multi = c["dx"] > 1 or c["dy"] > 1
    for bw in ["mdbs", "scott", "silverman"]:
        if bw != "mdbs" and (multi or rng.rand() < 0.5):
            continue
        kw = {} if bw == "mdbs" and rng.rand() < 0.5 else {"bw_method": bw}
        got = hsic_test_gamma(X, Y, **kw)
        want = oracle.hsic(X, Y, bw)
        if not np.all(np.isfinite(want)) or want[0] < 1e-9 * n:
            m.skip("degenerate")
            continue
        # the median of the distances sits between two far apart values for few-valued data: rounding of the distances cannot move it there
        m.check("statistic", near(got[0], want[0], 1e-6, 1e-10), tag=bw, got=got, want=want)
        m.check("p-value", same_p(got[1], want[1], 1e-5), tag=bw, got=got, want=want)
        m.check("in-range", 0 <= got[1] <= 1 and got[0] >= -1e-12 and np.ndim(got[0]) == 0 and np.ndim(got[1]) == 0, tag=bw, got=got)
        m.check("symmetric", same(hsic_test_gamma(Y, X, **kw), got), tag=bw)
        a, b = rng.uniform(-3, 3, c["dx"]) * oracle.hsic_width(X), rng.uniform(-3, 3, c["dy"]) * oracle.hsic_width(Y)
        if c["data"] not in ("discrete", "binary") and not fuzzy(X + a) and not fuzzy(Y + b):  # shifting rounds: equal values stay equal only in exact arithmetic
            m.check("shift-invariant", same(hsic_test_gamma(X + a, Y + b, **kw), got, 20), tag=bw)
        s, t = 2.0 ** rng.randint(-5, 6, 2)
        m.check("unit-free", same(hsic_test_gamma(X * s, Y * t, **kw), got), tag=bw)
        if c["dx"] == 1 and c["dy"] == 1:
            m.check("containers", same(hsic_test_gamma(X[:, 0], Y[:, 0], **kw), got) and same(hsic_test_gamma(np.asfortranarray(X), np.repeat(Y, 2, 0)[::2], **kw), got), tag=bw)
            if c["data"] == "discrete":
                m.check("containers", same(hsic_test_gamma(X.astype(np.int64), Y.astype(np.int16), **kw), got), tag=bw + "-int")
        o = rng.permutation(n)
        if n <= 100 or bw != "mdbs":
            m.check("pairs-reordered", same(hsic_test_gamma(X[o], Y[o], **kw), got), tag=bw)
        else:  # the first hundred rows give the bandwidth: reorder within and behind them
            o = np.concatenate([rng.permutation(100), 100 + rng.permutation(n - 100)])
            m.check("pairs-reordered", same(hsic_test_gamma(X[o], Y[o], **kw), got), tag=bw + "-long")
        if 0 < got[1] < 1:
            m.state(bw, X, Y)
    for Z in (X, Y):
        w = get_kernel_width(Z)
        m.check("width", near(w, oracle.hsic_width(Z), 1e-6, 0), tag="mdbs", got=w, want=oracle.hsic_width(Z))
    wx, wy = float(rng.uniform(0.3, 2)) * X.std(), float(rng.uniform(0.3, 2)) * Y.std()
    K, Kc = get_gram_matrix(X, wx)
    L, Lc = get_gram_matrix(Y, wy)
    H = np.eye(n) - 1.0 / n
    Kr, Lr = np.exp(-oracle.sqdist(X) / (2 * wx**2)), np.exp(-oracle.sqdist(Y) / (2 * wy**2))
    m.check("gram", near(K, Kr, 1e-6, 1e-9) and near(Kc, H @ Kr @ H, 1e-6, 1e-9), tag="kernel")
    m.check("gram", near(hsic_teststat(Kc, Lc, n), np.trace(H @ Kr @ H @ Lr) / n, 1e-6, 1e-9), tag="statistic")
    m.check("inputs-unaltered", np.array_equal(X, X0) and np.array_equal(Y, Y0))


case_long = case_pair
