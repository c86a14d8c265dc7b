"""C13: the F-correlation is the regularised kernel canonical correlation."""
import numpy as np
from lingam.utils import f_correlation

from mon import gen

RULE = (
    "pairs of samples of many shapes and dependences, n = 5..1500 (both sides of the documented parameter switch at 1000), compared with the "
    "full-rank kernel canonical correlation and with related executions; non-trivial: value strictly inside (0, 1); distinct by samples"
)
REQUIRED = {"matches-exact": 350, "symmetric": 350, "unit-free": 350, "in-range": 350}
SLOW_FIRST = ["long"]
TOL = 4e-3
ASSUMPTIONS = [f"the low-rank approximation is allowed an absolute error of {TOL} (largest observed 9e-4)"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([5, 8, 20, 50, 120, 300])), "rel": ["indep", "linear", "tanh", "square", "hetero", "same", "sin"][i % 7], "data": ["plain", "discrete", "outlier", "scaled"][i // 7 % 4]}

    def g(i, r):
        return dict(f(i, r), n=[999, 1000, 1001, 1200, 1500, 2200][i % 6] if i % 3 else [400, 600, 800, 1001][i // 3 % 4])

    return gen.spread(seed, tier, [("pair", 500, 5000, f), ("long", 18, 80, g), ("refused", 1, 1, None)])


def reference(x, y):
    n = len(x)
    kappa, sigma = (2e-3, 0.5) if n > 1000 else (2e-2, 1.0)
    R = []
    for v in (x, y):
        v = np.asarray(v, float)
        v = (v - v.mean()) / v.std()
        K = np.exp(-((v[:, None] - v[None]) ** 2) / (2 * sigma**2))
        K = K - K.mean(0)[None] - K.mean(1)[:, None] + K.mean()
        D, U = np.linalg.eigh(K)
        D = np.maximum(D, 0)
        keep = D > 1e-9 * n
        R.append((U[:, keep], D[keep] / (n * kappa / 2 + D[keep])))
    (U, a), (V, b) = R
    return float(np.linalg.svd((a[:, None] * (U.T @ V)) * b[None], compute_uv=False)[0])


def sample(rng, c):
    n = c["n"]
    x = gen.noise(rng, gen.NOISES[rng.randint(6)], n)
    e = gen.noise(rng, gen.NOISES[rng.randint(6)], n)
    y = {"indep": e, "linear": 0.6 * x + e, "tanh": np.tanh(2 * x) + 0.1 * e, "square": x**2 + 0.2 * e, "hetero": x * e, "same": x.copy(), "sin": np.sin(4 * x) + 0.2 * e}[c["rel"]]
    if c["data"] == "discrete":
        x, y = np.round(2 * x), np.round(2 * y)
    elif c["data"] == "outlier":
        x[rng.randint(n)] *= 30
    elif c["data"] == "scaled":
        x = x * 10.0 ** rng.uniform(-5, 5) + rng.uniform(-10, 10)
    return x, y


def case_pair(m, rng, c):
    x, y = sample(rng, c)
    if x.std() == 0 or y.std() == 0 or len(np.unique(x)) < 2 or len(np.unique(y)) < 2:
        m.skip("constant")
        return
    x0, y0 = x.copy(), y.copy()
    got = float(f_correlation(x, y))
    want = reference(x, y)
    m.check("matches-exact", abs(got - want) <= TOL, tag=c["rel"], got=got, want=want)
    m.check("in-range", -TOL <= got <= 1 + TOL, got=got)
    m.check("symmetric", abs(float(f_correlation(y, x)) - got) <= 1e-6, tag=c["rel"])
    s, t = rng.uniform(0.1, 20, 2) * rng.choice([-1, 1], 2)
    # pivoting may start elsewhere after rounding: the approximation error bounds the difference
    r = float(f_correlation(x * s + rng.uniform(-5, 5) * x.std(), y * t + rng.uniform(-5, 5) * y.std()))
    m.check("unit-free", abs(r - got) <= TOL, tag=c["rel"], got=r, want=got)
    m.check("unit-free", abs(float(f_correlation(x.tolist(), y * 4.0)) - got) <= 1e-6, tag="containers")
    o = rng.permutation(len(x))
    m.check("pairs-reordered", abs(float(f_correlation(x[o], y[o])) - got) <= TOL, tag=c["rel"])
    if c["data"] == "discrete":
        m.check("unit-free", abs(float(f_correlation(x.astype(int), y.astype(np.int32))) - got) <= 1e-6, tag="int")
    m.check("inputs-unaltered", np.array_equal(x, x0) and np.array_equal(y, y0))
    if 0 < got < 1:
        m.state(x, y)


case_long = case_pair


def case_refused(m, rng, c):
    for n, k in [(10, 9), (5, 50), (30, 29)]:
        m.raises("size-mismatch-refused", ValueError, lambda: f_correlation(rng.normal(size=n), rng.normal(size=k)))
